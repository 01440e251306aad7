----------------------------- MODULE MCSolvers -----------------------------
(* Design model of C20: a solver object driven by an arbitrary schedule of  *)
(* set_initial_value / set input / integrate(t).  "prev" remembers the       *)
(* state and the reference solution of the current piece.                    *)
EXTENDS Solvers
CONSTANTS Inputs, Dts, Depth, N
VARIABLES n, t, y, u, ref, span
vars == <<n, t, y, u, ref, span>>
S == [kind |-> "lin", A |-> << <<"-3", "2">>, <<"-2", "-1">> >>, b |-> <<"1", "0.5">>]
Start == <<"1", "-1">>
Init == n = 0 /\ t = "0" /\ y = Start /\ u = "0" /\ ref = Start /\ span = "0"
SetInitial == y' = Start /\ t' = "0" /\ ref' = Start /\ span' = "0" /\ u' = u
SetInput == \E v \in Inputs : u' = v /\ UNCHANGED <<t, y, ref, span>>
Integrate == \E d \in Dts : /\ t' = FAdd(t, d) /\ y' = Eager(Euler(S, t, y, u, FAdd(t, d), N)) /\ span' = FAdd(span, d)
                            /\ ref' = Eager(Rk4(S, t, ref, u, FAdd(t, d), 8)) /\ u' = u
Next == n < Depth /\ n' = n + 1 /\ (SetInitial \/ SetInput \/ Integrate)
Spec == Init /\ [][Next]_vars
(* the Euler trajectory stays within its first-order bound of the exact one, *)
(* over any schedule of inputs and restarts                                   *)
Accurate == \A i \in DOMAIN y : FAbs(y[i] -- ref[i]) \preceq ("1e-12" ++ ("60" ** span) // N)
Restarted == FEq(span, "0") => (FEq(y[1], "1") /\ FEq(y[2], "-1"))
ClockIsSpan == FClose(t, span, "1e-12", "1e-12")
SmallInputs == {"0", "-4", "3"}
SmallDts == {"0.01", "0.05"}
=============================================================================
