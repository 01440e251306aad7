-------------------------- MODULE MCContConverters --------------------------
(* Design model of C08: continuous units over a grid of commands, currents   *)
(* and interlocking times.                                                   *)
EXTENDS Converters
CONSTANTS Types, Duties, Tils, Amps
VARIABLES ready, type, d, til, i
vars == <<ready, type, d, til, i>>
Tau == "1"
N(ty) == IF ty = "CB6C" THEN 3 ELSE 1
Init == ready = FALSE /\ type = "C1QC" /\ d = <<"0">> /\ til = "0" /\ i = <<"0">>
Next == ~ready /\ ready' = TRUE /\ type' \in Types /\ d' \in [1..N(type') -> Duties] /\ til' \in Tils
        /\ \E x, y \in Amps : i' = IF N(type') = 3 THEN <<x, y, FNeg(FAdd(x, y))>> ELSE IF type' = "C1QC" THEN <<FAbs(x)>> ELSE <<x>>
Spec == Init /\ [][Next]_vars
U == ContU(type, d, til, Tau, i)
InRange == \A k \in DOMAIN U : ULow(type)[k] \preceq U[k] /\ U[k] \preceq UHigh(type)[k]
(* without interlocking: the power taken is the power delivered *)
PowerBalance == FEq(til, 0) => Near(FDot(U, i), ContSup(type, d, til, Tau, i))
(* the loss opposes the current, is at most til/tau per leg and vanishes without current *)
LossOpposes == \A k \in DOMAIN U : LET free == ContU(type, d, 0, Tau, i)[k] IN
   /\ (0 \prec i[k] => U[k] \preceq free) /\ (i[k] \prec 0 => free \preceq U[k]) /\ (FEq(i[k], 0) => FEq(U[k], free))
   /\ FAbs(U[k] -- free) \preceq (("1.000000001" ** (til // Tau)) ** NLegs(type))
(* commands outside the range act like the nearest border *)
Clipped == U = ContU(type, [k \in DOMAIN d |-> Duty(type, d[k])], til, Tau, i)
SmallDuties == {"-1.5", "-1", "-0.4", "0", "0.3", "0.98", "1", "7"}
SmallTils == {"0", "0.05"}
SmallAmps == {"-2", "0", "3"}
=============================================================================
