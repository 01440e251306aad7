------------------------------ MODULE MCEpisode ------------------------------
(* The loop of control_environment, refined against the protocol, for every   *)
(* number of steps, maximum length and sequence of outcomes up to N; every    *)
(* such script is emitted and replayed into the real loop.                    *)
EXTENDS EpisodeControl, TLC, Sequences, Json
CONSTANTS N, Maxes
AllMaxes == {1, 2, 3, NoMax}
Outcomes == {"go", "term", "trunc"}
VARIABLES m, pc, ids, script, n, max, bad
vars == <<m, pc, ids, script, n, max, bad>>
Init == m = M0 /\ pc = "envreset" /\ ids = 0 /\ script = <<>> /\ n \in 0..N /\ max \in Maxes /\ bad = FALSE
Do(ok, m2, pc2) == m' = m2 /\ pc' = pc2 /\ bad' = (bad \/ ~ok) /\ UNCHANGED <<n, max>>
EnvReset == pc = "envreset" /\ Do(MayResetEnv(m, max), ResetEnv(m, ids + 1), "ctrlreset") /\ ids' = ids + 1 /\ UNCHANGED script
CtrlReset == pc = "ctrlreset" /\ Do(MayResetCtrl(m, max), ResetCtrl(m), "loop") /\ UNCHANGED <<ids, script>>
Loop == pc = "loop" /\ Do(TRUE, m, IF m.total = n THEN "done" ELSE "control") /\ UNCHANGED <<ids, script>>
Ctrl == pc = "control" /\ Do(MayControl(m, max, ids), Control(m, ids + 1), "step") /\ ids' = ids + 1 /\ UNCHANGED script
StepEnv(o) == /\ pc = "step" /\ script' = Append(script, o) /\ ids' = ids + 1
              /\ LET m2 == Advance(m, ids + 1, o # "go") IN Do(MayStep(m, max, ids), m2, IF Over(m2, max) THEN "envreset" ELSE "loop")
Next == EnvReset \/ CtrlReset \/ Loop \/ Ctrl \/ \E o \in Outcomes : StepEnv(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Follows == ~bad
EpisodesBounded == m.len <= max
NeverBeyond == m.total <= n
AllSteps == <>[](pc = "done" /\ Complete(m, n))
Emit == (pc = "done") => PrintT("GEN|" \o ToJson([n |-> n, max |-> max, script |-> script]))
=============================================================================
