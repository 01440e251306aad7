--------------------------- MODULE EpisodeControl ---------------------------
(* Controlling an environment (C26): how the cycles of a controller and the   *)
(* episodes of an environment are interleaved.  M is what has happened so     *)
(* far: env "raw" (never reset) / "running" / "ended"; obs the observation     *)
(* and act the action not yet used; fresh: no control since the controller's  *)
(* reset; len the steps of this episode, total all of them.                   *)
EXTENDS Naturals, Sequences
NoAct == 0
NoMax == 1000000
M0 == [env |-> "raw", obs |-> 0, act |-> NoAct, fresh |-> FALSE, len |-> 0, total |-> 0, over |-> FALSE]
Over(m, max) == m.env = "ended" \/ m.len >= max

(* what may happen next *)
MayResetEnv(m, max) == m.env = "raw" \/ Over(m, max) \/ (m.len = 0 /\ m.act = NoAct)
MayResetCtrl(m, max) == m.act = NoAct /\ (m.len = 0 \/ Over(m, max))
MayControl(m, max, obs) == m.env = "running" /\ ~Over(m, max) /\ m.obs = obs /\ m.act = NoAct /\ (m.fresh <=> m.len = 0)
MayStep(m, max, act) == m.env = "running" /\ ~Over(m, max) /\ m.act # NoAct /\ m.act = act
Complete(m, n) == m.total = n /\ m.act = NoAct

(* what it does *)
ResetEnv(m, obs) == [m EXCEPT !.env = "running", !.obs = obs, !.len = 0]
ResetCtrl(m) == [m EXCEPT !.fresh = TRUE]
Control(m, act) == [m EXCEPT !.act = act, !.fresh = FALSE]
(* chain of stages *)
NoChain == [n |-> 0, k |-> 0, obs |-> 0, ref |-> 0]
Enter(n, obs, ref) == [n |-> n, k |-> 0, obs |-> obs, ref |-> ref]
MayPass(ch, k) == k = ch.k + 1 /\ k <= ch.n
Pass(ch, out) == [ch EXCEPT !.k = @ + 1, !.ref = out]
Passed(ch) == ch.k = ch.n
Advance(m, obs, end) == [m EXCEPT !.env = IF end THEN "ended" ELSE "running", !.obs = obs, !.act = NoAct, !.len = @ + 1, !.total = @ + 1]
=============================================================================
