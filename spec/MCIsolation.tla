---------------------------- MODULE MCIsolation ----------------------------
(* Design model and schedule generator of C04: instances execute their own     *)
(* programs in every interleaving.  Shared: defaults and class attributes that *)
(* every instance reads; in the design no operation changes them.              *)
EXTENDS History, FiniteSets, TLC, Json
CONSTANTS N, Progs, Impure
VARIABLES inst, pc, sched, shared, ans
vars == <<inst, pc, sched, shared, ans>>
Program(k) == Progs[k]
Init == inst = [k \in 1..N |-> NewInst(k)] /\ pc = [k \in 1..N |-> 1] /\ sched = <<>> /\ shared = 0 /\ ans = [k \in 1..N |-> <<>>]
Do(k) ==
  /\ pc[k] <= Len(Program(k))
  /\ LET op == Program(k)[pc[k]] IN
     /\ inst' = [inst EXCEPT ![k] = CASE op = "reset" -> ResetInst(@, "s") [] op = "step" -> StepInst(@, "a") [] OTHER -> @]
     /\ shared' = IF op \in Impure THEN shared + 1 ELSE shared
     /\ ans' = [ans EXCEPT ![k] = <<op, inst'[k].calls, shared>>]
  /\ pc' = [pc EXCEPT ![k] = @ + 1] /\ sched' = Append(sched, k)
Next == \E k \in 1..N : Do(k)
Spec == Init /\ [][Next]_vars
(* an answer is a function of the instance's own calls *)
OwnOnly == \A k \in 1..N : ans[k] = <<>> \/ ans[k] = <<ans[k][1], inst[k].calls, 0>>
Emit == (\A k \in 1..N : pc[k] = Len(Program(k)) + 1) => PrintT("GEN|" \o ToJson(sched))
TwoProgs == << <<"new", "reset", "step", "step", "reset", "step">>, <<"new", "reset", "step", "close">> >>
ThreeProgs == << <<"new", "reset", "step">>, <<"new", "reset", "step">>, <<"new", "reset">> >>
=============================================================================
