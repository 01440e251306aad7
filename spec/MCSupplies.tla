---------------------------- MODULE MCSupplies ----------------------------
(* Design model of C19: an RC supply loaded by a current chosen anew for    *)
(* every period, and the symmetry of the three-phase supply.                *)
EXTENDS Supplies
CONSTANTS Currents, Steps
VARIABLES n, u, i, t
vars == <<n, u, i, t>>
S == [u0 |-> "100", R |-> "2", C |-> "1e-3"]
Dt == "1e-4"
Init == n = 0 /\ u = "100" /\ i = "0" /\ t = "0"
Next == n < Steps /\ n' = n + 1 /\ i' \in Currents /\ u' = RcEuler(S, u, i', Dt) /\ t' = FAdd(t, "0.0013")
Spec == Init /\ [][Next]_vars
(* with a current the source can deliver, the capacitor stays between empty and fully charged *)
InRange == "-1e-9" \preceq u /\ u \preceq "100.000000001"
(* the explicit step is a first-order approximation of the differential equation *)
FirstOrder == \A c \in Currents : FAbs(RcEuler(S, u, c, Dt) -- RcExact(S, u, c, Dt)) \preceq (FAbs(RcDu(S, u, c)) ** Dt ** "0.03" ++ "1e-9")
(* without load it charges, never beyond the source *)
Charges == u \preceq RcEuler(S, u, 0, Dt)
ThreePhase == LET v == AcU([kind |-> "ac3", u0 |-> "400", f |-> "50"], "0.3", t) IN
   /\ FClose(FSum(v), 0, "0", "1e-9")
   /\ FClose(FDot(v, v), Sq(400), "1e-9", "0")            \* sum of squares = (effective line voltage)^2
RmsSingle == FClose(Sq(AcAmp("ac1", "230")), 2 ** Sq(230), "1e-12", "0")
SmallCurrents == {"0", "10", "25", "50"}
=============================================================================
