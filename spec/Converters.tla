----------------------------- MODULE Converters -----------------------------
(* Power electronic converters (C07, C08).  A converter is a sequence of     *)
(* units u = [type, til]; til is the interlocking time.  Elementary types:   *)
(*   finite  F1QC F2QC F4QC FB6C        continuous  C1QC C2QC C4QC CB6C      *)
(* A finite unit consists of legs (switching cells)                          *)
(*   leg = [a |-> commanded, s |-> conducting, t0, lock]                     *)
(* with switching states 0 both open, 1 upper closed, 2 lower closed.        *)
EXTENDS Flt, FiniteSets

FiniteTypes == {"F1QC", "F2QC", "F4QC", "FB6C"}
NLegs(type) == CASE type \in {"F1QC", "F2QC"} -> 1 [] type = "F4QC" -> 2 [] type = "FB6C" -> 3
                 [] type \in {"C1QC", "C2QC"} -> 1 [] type = "C4QC" -> 2 [] type = "CB6C" -> 3
NPorts(type) == IF type \in {"FB6C", "CB6C"} THEN 3 ELSE 1
NActions(type) == CASE type = "F1QC" -> 2 [] type = "F2QC" -> 3 [] type = "F4QC" -> 4 [] type = "FB6C" -> 8
(* documented switching tables: the state of each leg for an action *)
B6Bit(a, k) == (a \div (2 ^ (3 - k))) % 2
LegActions(type, a) ==
  CASE type \in {"F1QC", "F2QC"} -> <<a>>
    [] type = "F4QC" -> << <<1, 1, 2, 2>>[a + 1], <<1, 2, 1, 2>>[a + 1] >>
    [] type = "FB6C" -> [k \in 1..3 |-> IF B6Bit(a, k) = 1 THEN 1 ELSE 2]

(* ---- one leg ---------------------------------------------------------------- *)
LegReset == [a |-> 0, s |-> 0, t0 |-> 0, lock |-> FALSE]
LegSet(leg, type, til, a, t) ==
  [leg EXCEPT !.a = a, !.t0 = t, !.lock = type # "F1QC" /\ a # 0 /\ leg.s # 0 /\ a # leg.s /\ 0 \prec til]
(* the state during the interval that ends at time t *)
LegState(leg, til, tau, t) == IF leg.lock /\ (t -- (tau // 1000)) \preceq (leg.t0 ++ til) THEN 0 ELSE leg.a
LegU(type, s, i) == IF type = "F1QC" THEN (IF i \prec 0 THEN 1 ELSE s)
                    ELSE CASE s = 0 -> (IF i \prec 0 THEN 1 ELSE 0) [] s = 1 -> 1 [] s = 2 -> 0
LegSup(type, s, i) == IF type = "F1QC" THEN (IF s = 1 THEN i ELSE 0)
                      ELSE CASE s = 0 -> (IF i \prec 0 THEN i ELSE 0) [] s = 1 -> i [] s = 2 -> 0

(* ---- a finite unit: legs in, voltages and supply current out -------------------- *)
LegI(type, k, i) == IF type = "F4QC" THEN (IF k = 1 THEN i[1] ELSE FNeg(i[1])) ELSE i[k]
UnitU(type, ss, i) ==
  CASE type \in {"F1QC", "F2QC"} -> <<LegU(type, ss[1], i[1])>>
    [] type = "F4QC" -> << FSub(LegU(type, ss[1], i[1]), LegU(type, ss[2], FNeg(i[1]))) >>
    [] type = "FB6C" -> [k \in 1..3 |-> FSub(LegU(type, ss[k], i[k]), "0.5")]
UnitSup(type, ss, i) == FSum([k \in 1..NLegs(type) |-> LegSup(type, ss[k], LegI(type, k, i))])
UnitReset(type) == [k \in 1..NLegs(type) |-> LegReset]
UnitSet(legs, type, til, a, t) == LET la == LegActions(type, a) IN [k \in DOMAIN legs |-> LegSet(legs[k], type, til, la[k], t)]
UnitStates(legs, til, tau, t) == [k \in DOMAIN legs |-> LegState(legs[k], til, tau, t)]

(* ---- continuous units: duty values ----------------------------------------------- *)
Lo(type) == IF type \in {"C4QC", "CB6C"} THEN -1 ELSE 0
Duty(type, d) == Clip(d, Lo(type), 1)
LegDuty(type, d, k) == CASE type \in {"C1QC", "C2QC"} -> Duty(type, d[1])
                         [] type = "C4QC" -> "0.5" ** (IF k = 1 THEN Duty(type, d[1]) ++ 1 ELSE 1 -- Duty(type, d[1]))
                         [] type = "CB6C" -> "0.5" ** (Duty(type, d[k]) ++ 1)
Loss(til, tau, i) == FSign(i) ** (til // tau)
C2U(d, til, tau, i) == Clip(d -- Loss(til, tau, i), 0, 1)
C2Sup(d, til, tau, i) == (d ++ ((til // tau) ** ((IF i \prec 0 THEN 1 ELSE 0) -- d))) ** i
ContU(type, d, til, tau, i) ==
  CASE type = "C1QC" -> << IF i[1] \prec 0 THEN 1 ELSE Duty(type, d[1]) >>
    [] type = "C2QC" -> << C2U(Duty(type, d[1]), til, tau, i[1]) >>
    [] type = "C4QC" -> << FSub(C2U(LegDuty(type, d, 1), til, tau, i[1]), C2U(LegDuty(type, d, 2), til, tau, FNeg(i[1]))) >>
    [] type = "CB6C" -> [k \in 1..3 |-> FSub(C2U(LegDuty(type, d, k), til, tau, i[k]), "0.5")]
(* the implementation's 4QC at present: both half bridges see the same current (known finding of C08) *)
ContUKnown(type, d, til, tau, i) ==
  IF type = "C4QC" THEN << FSub(C2U(LegDuty(type, d, 1), til, tau, i[1]), C2U(LegDuty(type, d, 2), til, tau, i[1])) >>
  ELSE ContU(type, d, til, tau, i)
ContSup(type, d, til, tau, i) ==
  CASE type = "C1QC" -> Duty(type, d[1]) ** i[1]
    [] type = "C2QC" -> C2Sup(Duty(type, d[1]), til, tau, i[1])
    [] type = "C4QC" -> FAdd(C2Sup(LegDuty(type, d, 1), til, tau, i[1]), C2Sup(LegDuty(type, d, 2), til, tau, FNeg(i[1])))
    [] type = "CB6C" -> FSum([k \in 1..3 |-> C2Sup(LegDuty(type, d, k), til, tau, i[k])])

(* ---- composition: units = sequence of [type, til]; ports are concatenated ----------- *)
IsFinite(units) == units[1].type \in FiniteTypes
Off(units, n) == SumInt([k \in 1..(n - 1) |-> NPorts(units[k].type)])
PortSlice(units, n, v) == SubSeq(v, Off(units, n) + 1, Off(units, n) + NPorts(units[n].type))
ActOff(units, n) == SumInt([k \in 1..(n - 1) |-> IF units[k].type = "CB6C" THEN 3 ELSE 1])
ActSlice(units, n, a) == SubSeq(a, ActOff(units, n) + 1, ActOff(units, n) + (IF units[n].type = "CB6C" THEN 3 ELSE 1))
FinReset(units) == [n \in DOMAIN units |-> UnitReset(units[n].type)]
FinSet(units, legs, a, t) == [n \in DOMAIN units |-> UnitSet(legs[n], units[n].type, units[n].til, a[n], t)]
FinStates(units, legs, tau, t) == [n \in DOMAIN units |-> UnitStates(legs[n], units[n].til, tau, t)]
FinConduct(units, legs, ss) == [n \in DOMAIN units |-> [k \in DOMAIN legs[n] |-> [legs[n][k] EXCEPT !.s = ss[n][k]]]]
LegStatesNow(legs) == [n \in DOMAIN legs |-> [k \in DOMAIN legs[n] |-> legs[n][k].s]]
FinU(units, ss, i) == Flatten([n \in DOMAIN units |-> UnitU(units[n].type, ss[n], PortSlice(units, n, i))])
FinSup(units, ss, i) == FSum([n \in DOMAIN units |-> UnitSup(units[n].type, ss[n], PortSlice(units, n, i))])
(* interlocking intervals end at these times (besides the end of the step) *)
LockTils(units, legs) == {units[n].til : n \in {m \in DOMAIN units : \E k \in DOMAIN legs[m] : legs[m][k].lock}}
CoU(units, a, tau, i) == Flatten([n \in DOMAIN units |-> ContU(units[n].type, ActSlice(units, n, a), units[n].til, tau, PortSlice(units, n, i))])
CoUKnown(units, a, tau, i) == Flatten([n \in DOMAIN units |-> ContUKnown(units[n].type, ActSlice(units, n, a), units[n].til, tau, PortSlice(units, n, i))])
CoSup(units, a, tau, i) == FSum([n \in DOMAIN units |-> ContSup(units[n].type, ActSlice(units, n, a), units[n].til, tau, PortSlice(units, n, i))])

(* ---- documented spaces, in units of the supply voltage / current ----------------------- *)
ULow(type) == CASE type \in {"F1QC", "F2QC", "C1QC", "C2QC"} -> <<0>> [] type \in {"F4QC", "C4QC"} -> <<-1>> [] OTHER -> <<-1, -1, -1>>
UHigh(type) == IF NPorts(type) = 3 THEN <<1, 1, 1>> ELSE <<1>>
ILow(type) == CASE type \in {"F1QC", "C1QC"} -> <<0>> [] NPorts(type) = 3 -> <<-1, -1, -1>> [] OTHER -> <<-1>>
ALow(type) == IF type = "CB6C" THEN <<-1, -1, -1>> ELSE <<Lo(type)>>
AHigh(type) == IF type = "CB6C" THEN <<1, 1, 1>> ELSE <<1>>
=============================================================================
