------------------------------- MODULE MCScml -------------------------------
(* Design model of C24: small drives under every action sequence.             *)
EXTENDS Scml, Defaults
CONSTANTS Depth, Kinds, Acts
VARIABLES kind, s, hist, lastus
vars == <<kind, s, hist, lastus>>
Base(type, units, us) ==
  [type |-> type, mp |-> MotorParameterDefaults[type], units |-> units, tau |-> "1e-4", n |-> 1, cs |-> "abc",
   load |-> [kind |-> "poly", a |-> "0.01", b |-> "0.01", c |-> "0", j |-> "0.05"], sup |-> [kind |-> "ideal", u0 |-> us]]
U(t) == [type |-> t, til |-> "2e-5"]
Cfg(k) ==
  CASE k = "dc2" -> Base("PermExDc", <<U("F2QC")>>, "60")
    [] k = "dc4" -> Base("SeriesDc", <<U("F4QC")>>, "60")
    [] k = "ext" -> Base("ExtExDc", <<U("F4QC"), U("F2QC")>>, "60")
    [] k = "pmsm" -> Base("PMSM", <<U("FB6C")>>, "300")
    [] k = "eesm" -> Base("EESM", <<U("FB6C"), U("F2QC")>>, "300")
    [] k = "scim" -> Base("SCIM", <<U("FB6C")>>, "400")
    [] k = "dfim" -> Base("DFIM", <<U("FB6C"), U("FB6C")>>, "500")
Start(k) ==
  CASE k = "dc2" -> <<"20", "-5">> [] k = "dc4" -> <<"20", "30">> [] k = "ext" -> <<"20", "-5", "40">>
    [] k = "pmsm" -> <<"30", "-20", "40", "3.1">> [] k = "eesm" -> <<"30", "-20", "40", "25", "-3">>
    [] k = "scim" -> <<"10", "1", "-2", "0.3", "-0.1", "3.1">> [] k = "dfim" -> <<"10", "1", "-2", "0.3", "-0.1", "3.1">>
C == Cfg(kind)
Init == kind \in Kinds /\ s = InitSys(Cfg(kind), Start(kind), Cfg(kind).sup.u0) /\ hist = <<>>
        /\ lastus = Cfg(kind).sup.u0
ActSet(c) == {a \in [DOMAIN c.units -> Acts] : \A n \in DOMAIN c.units : a[n] < NActions(c.units[n].type)}
Next == /\ Len(hist) < Depth
        /\ \E a \in ActSet(C) : s' = StepSys(C, s, a, lastus) /\ hist' = Append(hist, a)
        /\ UNCHANGED <<kind, lastus>>
Spec == Init /\ [][Next]_vars
(* ---- invariants ------------------------------------------------------------- *)
R == Report(C, s)
Clock == s.k = Len(hist) /\ FClose(s.t, s.k ** C.tau, "1e-12", "1e-15")
Lengths == Len(R) = Len(Names(C))
SumZero == (~IsDc(C)) => FClose(FSum(SubSeq(R, 3, 5)), 0, 0, "1e-9")
AngleOk == (~IsDc(C)) => LET e == R[Len(R) - 1] IN FNeg(Pi) \prec e /\ e \preceq Pi
(* power entering the converter equals power leaving it: u_sup i_sup = u . i, at the currents of the section's begin *)
ConverterLossless ==
  (Len(hist) > 0 /\ ~s.amb) =>
     LET i == ConvI(C, s.yb) IN
     FClose(C.sup.u0 ** FinSup(C.units, LegStatesNow(s.legs), i), FDot(s.u, i), "1e-9", "1e-6")
(* reported dq currents are the transform of the reported phase currents *)
DqConsistent ==
  CASE IsSync(C) -> LET dq == AbcToDq(SubSeq(R, 3, 5), Eps(C, s.y)) IN FClose(dq[1], R[6], "1e-9", "1e-9") /\ FClose(dq[2], R[7], "1e-9", "1e-9")
    [] IsIm(C) -> LET dq == AbcToDq(SubSeq(R, 3, 5), Field(C, s.y)) IN FClose(dq[1], R[6], "1e-9", "1e-9") /\ FClose(dq[2], R[7], "1e-9", "1e-9")
    [] OTHER -> TRUE
(* torque of an induction machine from field-oriented quantities *)
FieldTorque ==
  (C.type = "SCIM") => FClose(R[2], ("1.5" ** C.mp.p ** ImD(C.mp).kr) ** (Norm2(<<s.y[4], s.y[5]>>) ** R[7]), "1e-9", "1e-9")
(* voltages stay within the supply: no terminal exceeds it *)
VoltageBound == \A k \in DOMAIN s.u : FAbs(s.u[k]) \preceq (C.sup.u0 ** "1.000000001")
(* interlocking: a section of exactly til comes first iff a leg changes between its active switches *)
SectionShape ==
  \A a \in ActSet(C) : LET e == Ends(C, FinSet(C.units, s.legs, a, s.t), s.t) IN
     /\ FEq(e[Len(e)], s.t ++ C.tau)
     /\ Len(e) <= 2 /\ (Len(e) = 2 => FClose(e[1], s.t ++ "2e-5", "1e-12", "1e-15"))
     /\ (hist # <<>> /\ a = hist[Len(hist)]) => Len(e) = 1
=============================================================================
