-------------------------------- MODULE Scml --------------------------------
(* The simulated drive: supply, converter, motor, load and solver composed    *)
(* (C24, with C05, C06, C21, C23).  A system c is a record                     *)
(*   type, mp        motor                     units, tau   converter, period  *)
(*   load            [kind |-> "poly" | "const" | "ext", ..]                   *)
(*   sup             [kind |-> "ideal" | "rc" | "ac1", u0, ..]                 *)
(*   n               Euler sub-steps per section                              *)
(*   cs              control space "abc" | "dq"                               *)
(* and its state s = [y, t, k, legs, u]: ODE state <<omega>> \o motor state,   *)
(* time, step counter, switching cells, supply voltage.                        *)
EXTENDS Motors, Loads, Converters, Supplies, Transforms

IsDc(c) == c.type \in DcTypes
IsSync(c) == c.type \in SyncTypes \cup {"EESM"}
IsIm(c) == c.type \in InductionTypes

LoadOde(c, t, w, torque) ==
  CASE c.load.kind = "poly" -> PolyOde(c.load, w, torque)
    [] c.load.kind = "const" -> 0
    [] c.load.kind = "ext" -> ExternalOde(c.load.prof, c.load.tau, t, w)
SysOde(c, t, y, u) ==
  LET x == Tail(y) IN <<LoadOde(c, t, y[1], Torque(c.type, c.mp, x))>> \o Ode(c.type, c.mp, x, u, y[1])
RECURSIVE SysEuler(_, _, _, _, _, _)
SysEuler(c, t, y, u, h, n) ==
  IF n = 0 THEN y ELSE SysEuler(c, t ++ h, Eager(VAdd(y, VScale(h, SysOde(c, t, y, u)))), u, h, n - 1)

(* ---- electrical angle and field angle of a motor state -------------------- *)
Eps(c, y) == Last1(y)
Field(c, y) == FAtan2(y[5], y[4])                  \* induction: angle of the rotor flux
RotorI(c, y) == LET lr == c.mp.l_m ++ c.mp.l_sigr IN
  << (y[4] -- (c.mp.l_m ** y[2])) // lr, (y[5] -- (c.mp.l_m ** y[3])) // lr >>      \* stator-fixed

(* ---- currents the converter sees ------------------------------------------- *)
ConvI(c, y) ==
  CASE IsDc(c) -> InCurrent(c.type, Tail(y))
    [] c.type \in SyncTypes -> DqToAbc(<<y[2], y[3]>>, Eps(c, y))
    [] c.type = "EESM" -> DqToAbc(<<y[2], y[3]>>, Eps(c, y)) \o <<y[4]>>
    [] c.type = "SCIM" -> T32(<<y[2], y[3]>>)
    [] c.type = "DFIM" -> T32(<<y[2], y[3]>>) \o T32(Rot(RotorI(c, y), FNeg(Eps(c, y))))
(* ---- voltages at the machine's terminals -> inputs of its equations --------- *)
OdeInput(c, y, u) ==
  CASE IsDc(c) -> u
    [] c.type \in SyncTypes -> AbcToDq(u, Eps(c, y))
    [] c.type = "EESM" -> AbcToDq(SubSeq(u, 1, 3), Eps(c, y)) \o <<u[4]>>
    [] c.type = "SCIM" -> T23(u)
    [] c.type = "DFIM" -> T23(SubSeq(u, 1, 3)) \o Rot(T23(SubSeq(u, 4, 6)), Eps(c, y))
(* ---- a dq command becomes phase voltages at the present angle ---------------- *)
Command(c, y, a) ==
  IF c.cs = "abc" THEN a
  ELSE DqToAbc(a, IF IsIm(c) THEN Field(c, y) ELSE Eps(c, y))

(* ---- sections of a step: the ends of the interlocking intervals, then the end *)
RECURSIVE SortedTils(_)
SortedTils(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x \preceq y IN <<m>> \o SortedTils(S \ {m})
Ends(c, legs, t) == [k \in 1..Cardinality(LockTils(c.units, legs)) |-> t ++ SortedTils(LockTils(c.units, legs))[k]] \o <<t ++ c.tau>>
Tiny == "1e-8"
(* would another sign of a current near zero change the output voltage? *)
Flip(i) == [k \in DOMAIN i |-> IF FAbs(i[k]) \prec Tiny THEN Tiny ELSE i[k]]
Flop(i) == [k \in DOMAIN i |-> IF FAbs(i[k]) \prec Tiny THEN FNeg(Tiny) ELSE i[k]]
NearU(u, v) == \A k \in DOMAIN u : FClose(u[k], v[k], "1e-5", "1e-5")
(* r = [y, legs, u (applied), ui (ODE inputs), yb (state at the begin of the section), amb, is (currents at the begins of the sections)] *)
RECURSIVE RunSections(_, _, _, _, _, _, _)
RunSections(c, r, a, us, t, ends, k) ==
  IF k > Len(ends) THEN r
  ELSE LET i == Eager(ConvI(c, r.y))
           fin == IsFinite(c.units)
           ss == IF fin THEN FinStates(c.units, r.legs, c.tau, ends[k]) ELSE <<>>
           U(j) == IF fin THEN FinU(c.units, ss, j) ELSE CoUKnown(c.units, a, c.tau, j)
           legs == IF fin THEN FinConduct(c.units, r.legs, ss) ELSE <<>>
           u == Eager(VScale(us, U(i)))
           ui == Eager(OdeInput(c, r.y, u))
           y == SysEuler(c, t, r.y, ui, (ends[k] -- t) // c.n, c.n)
       IN RunSections(c, [y |-> y, legs |-> legs, u |-> u, ui |-> ui, yb |-> r.y, is |-> Append(r.is, i),
                          amb |-> r.amb \/ ~NearU(U(Flip(i)), U(Flop(i)))], a, us, ends[k], ends, k + 1)
StepSys(c, s, act, us) ==
  LET fin == IsFinite(c.units)
      a == IF fin THEN act ELSE Command(c, s.y, act)
      legs == IF fin THEN FinSet(c.units, s.legs, a, s.t) ELSE <<>>
      ends == IF fin THEN Ends(c, legs, s.t) ELSE <<s.t ++ c.tau>>
      r == RunSections(c, [y |-> s.y, legs |-> legs, u |-> <<>>, ui |-> <<>>, yb |-> s.y, amb |-> FALSE, is |-> <<>>], a, us, s.t, ends, 1)
  IN [y |-> r.y, legs |-> r.legs, t |-> s.t ++ c.tau, k |-> s.k + 1, us |-> us, u |-> r.u, yb |-> r.yb, is |-> r.is, amb |-> s.amb \/ r.amb]
InitSys(c, y0, us) ==
  [y |-> y0, legs |-> IF IsFinite(c.units) THEN FinReset(c.units) ELSE <<>>, t |-> 0, k |-> 0, us |-> us,
   u |-> VScale(us, Flatten([n \in DOMAIN c.units |-> IF NPorts(c.units[n].type) = 3 THEN <<"-0.5", "-0.5", "-0.5">> ELSE <<0>>])),
   yb |-> y0, is |-> <<>>, amb |-> FALSE]

(* ---- supply voltage in the step that begins at s.t ---------------------------- *)
(* RC supply: a unit draws the current of its conducting switches before or after this step's switching *)
RECURSIVE FMinS(_, _)
FMinS(v, n) == IF n = 1 THEN v[1] ELSE FMin(v[n], FMinS(v, n - 1))
RECURSIVE FMaxS(_, _)
FMaxS(v, n) == IF n = 1 THEN v[1] ELSE FMax(v[n], FMaxS(v, n - 1))
SupCurrents(c, s, act) ==          \* <<least, greatest>>
  LET i == Eager(ConvI(c, s.y)) IN
  IF IsFinite(c.units)
  THEN LET legs == FinSet(c.units, s.legs, act, s.t)
           ss == << LegStatesNow(s.legs), FinStates(c.units, legs, c.tau, s.t ++ c.tau), FinStates(c.units, legs, c.tau, s.t) >>
           cand == [n \in DOMAIN c.units |-> Eager([j \in 1..3 |-> UnitSup(c.units[n].type, ss[j][n], PortSlice(c.units, n, i))])]
       IN << FSum([n \in DOMAIN cand |-> FMinS(cand[n], 3)]), FSum([n \in DOMAIN cand |-> FMaxS(cand[n], 3)]) >>
  ELSE LET x == CoSup(c.units, Command(c, s.y, act), c.tau, i) IN <<x, x>>
SupplyOk(c, s, act, us) ==
  CASE c.sup.kind = "ideal" -> FClose(us, c.sup.u0, "1e-9", 0)
    [] c.sup.kind = "rc" ->
         LET dt == IF s.k = 0 THEN 0 ELSE c.tau
             x == SupCurrents(c, s, act)  tol == "1e-9" ** c.sup.u0 IN
         /\ FMin(RcEuler(c.sup, s.us, x[2], dt), RcExact(c.sup, s.us, x[2], dt)) -- tol \preceq us
         /\ us \preceq (FMax(RcEuler(c.sup, s.us, x[1], dt), RcExact(c.sup, s.us, x[1], dt)) ++ tol)
    [] c.sup.kind = "ac1" -> FClose(us, AcU(c.sup, c.sup.phi, s.t)[1], "1e-7", "1e-6" ** c.sup.u0)

(* ---- what the state vector reports (physical values), in the order of Names ------ *)
Names(c) ==
  <<"omega", "torque">> \o
  CASE c.type \in {"PermExDc", "SeriesDc"} -> <<"i", "u", "u_sup">>
    [] c.type = "ShuntDc" -> <<"i_a", "i_e", "u", "u_sup">>
    [] c.type = "ExtExDc" -> <<"i_a", "i_e", "u_a", "u_e", "u_sup">>
    [] c.type \in SyncTypes -> <<"i_a", "i_b", "i_c", "i_sd", "i_sq", "u_a", "u_b", "u_c", "u_sd", "u_sq", "epsilon", "u_sup">>
    [] c.type = "EESM" -> <<"i_a", "i_b", "i_c", "i_sd", "i_sq", "i_e", "u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e", "epsilon", "u_sup">>
    [] c.type = "SCIM" -> <<"i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "epsilon", "u_sup">>
    [] c.type = "DFIM" -> <<"i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "i_ra", "i_rb", "i_rc", "i_rd", "i_rq",
                            "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "u_ra", "u_rb", "u_rc", "u_rd", "u_rq", "epsilon", "u_sup">>
Report(c, s) ==
  LET y == s.y  yb == s.yb  x == Tail(y)  u == s.u
      us3 == SubSeq(u, 1, 3)
  IN <<y[1], Torque(c.type, c.mp, x)>> \o
     CASE IsDc(c) -> x \o u \o <<s.us>>
       [] c.type \in SyncTypes -> DqToAbc(<<x[1], x[2]>>, Eps(c, y)) \o <<x[1], x[2]>> \o u \o AbcToDq(u, Eps(c, yb)) \o <<Wrap(Eps(c, y)), s.us>>
       [] c.type = "EESM" -> DqToAbc(<<x[1], x[2]>>, Eps(c, y)) \o <<x[1], x[2], x[3]>> \o us3 \o AbcToDq(us3, Eps(c, yb)) \o <<u[4]>>
                              \o <<Wrap(Eps(c, y)), s.us>>
       [] c.type = "SCIM" -> T32(<<x[1], x[2]>>) \o Rot(<<x[1], x[2]>>, FNeg(Field(c, y))) \o u \o AbcToDq(u, Field(c, yb)) \o <<Wrap(Eps(c, y)), s.us>>
       [] c.type = "DFIM" ->
            LET ir == RotorI(c, y)  ur == SubSeq(u, 4, 6) IN
            T32(<<x[1], x[2]>>) \o Rot(<<x[1], x[2]>>, FNeg(Field(c, y)))
            \o T32(Rot(ir, FNeg(Eps(c, y)))) \o Rot(ir, FNeg(Field(c, y)))
            \o us3 \o AbcToDq(us3, Field(c, yb))
            \o ur \o AbcToDq(ur, Field(c, yb) -- Eps(c, yb)) \o <<Wrap(Eps(c, y)), s.us>>
=============================================================================
