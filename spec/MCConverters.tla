---------------------------- MODULE MCConverters ----------------------------
(* Design model of C07/C08: one converter unit driven by arbitrary actions   *)
(* and output currents.  Time is counted in interlocking times: a step takes *)
(* Period ticks and an interlocking interval one tick.                       *)
EXTENDS Converters, TLC
CONSTANTS Types, Period, Steps, Lock
VARIABLES type, legs, t, phase, i, ss, offFor, n
vars == <<type, legs, t, phase, i, ss, offFor, n>>
Til == IF Lock THEN 1 ELSE 0
Three == {<<1, 1, -2>>, <<-1, 2, -1>>, <<2, -1, -1>>, <<-2, 1, 1>>, <<0, 1, -1>>}
Currents(ty) == IF NPorts(ty) = 3 THEN Three ELSE IF ty = "F1QC" THEN {<<0>>, <<1>>} ELSE {<<-1>>, <<0>>, <<1>>}
Zero(ty) == IF NPorts(ty) = 3 THEN <<0, 0, 0>> ELSE <<0>>
Init == /\ type \in Types /\ legs = UnitReset(type) /\ t = 0 /\ phase = "idle" /\ i = Zero(type) /\ n = 0
        /\ ss = [k \in 1..NLegs(type) |-> 0] /\ offFor = [k \in 1..NLegs(type) |-> Period]
SetAction == /\ phase = "idle" /\ n < Steps
             /\ \E a \in 0..(NActions(type) - 1) : legs' = UnitSet(legs, type, Til, a, t)
             /\ phase' = IF Lock /\ \E k \in DOMAIN legs' : legs'[k].lock THEN "first" ELSE "second"
             /\ n' = n + 1 /\ UNCHANGED <<type, t, i, ss, offFor>>
(* one interval in which the switches do not move *)
Section(end, next) ==
  /\ ss' = UnitStates(legs, Til, Period, end)
  /\ legs' = [k \in DOMAIN legs |-> [legs[k] EXCEPT !.s = ss'[k]]]
  /\ i' \in Currents(type)
  /\ offFor' = [k \in DOMAIN legs |-> IF ss'[k] = 0 THEN (IF offFor[k] > Period THEN offFor[k] ELSE offFor[k] + (end - t)) ELSE 0]
  /\ t' = end /\ phase' = next /\ UNCHANGED <<type, n>>
Sections == \/ phase = "first" /\ Section(t + Til, "rest")
            \/ phase = "rest" /\ Section(t + Period - Til, "idle")
            \/ phase = "second" /\ Section(t + Period, "idle")
Reset == phase = "idle" /\ legs' = UnitReset(type) /\ ss' = [k \in DOMAIN legs |-> 0] /\ t' = 0 /\ offFor' = [k \in DOMAIN legs |-> Period]
         /\ i' = Zero(type) /\ UNCHANGED <<type, phase, n>>
Next == SetAction \/ Sections \/ Reset
Spec == Init /\ [][Next]_vars
(* no shoot-through: a leg changes from one switch to the other only after it was open for the interlocking time *)
DeadTimeKept == [][\A k \in DOMAIN ss : (Lock /\ type # "F1QC" /\ ss[k] # 0 /\ ss'[k] # 0) => ss'[k] = ss[k] \/ legs' = UnitReset(type)]_vars
OpenLongEnough == [][\A k \in DOMAIN ss : (Lock /\ type # "F1QC" /\ ss[k] = 0 /\ ss'[k] # 0) => offFor[k] >= Til]_vars
(* outside interlocking every leg has the commanded state *)
Commanded == phase = "idle" /\ n > 0 /\ t > 0 => \A k \in DOMAIN ss : ss[k] = legs[k].a
(* ideal switches: the power taken from the supply is the power delivered *)
PowerBalance == FEq(FDot(UnitU(type, ss, i), i), UnitSup(type, ss, i))
InRange == LET u == UnitU(type, ss, i) IN \A k \in DOMAIN u : ULow(type)[k] \preceq u[k] /\ u[k] \preceq UHigh(type)[k]
=============================================================================
