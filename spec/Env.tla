------------------------------- MODULE Env -------------------------------
(* The environment's episode protocol (C01) and callback protocol (C02):   *)
(* state transformers and the events of each call.  Used by the design     *)
(* module MCEnv and by the trace specifications EnvTrace, CallbackTrace.    *)
EXTENDS Integers, Sequences

(* ---- state transformers -------------------------------------------------- *)
EnvFresh == [phase |-> "idle", k |-> 0, ep |-> 0]
Accepts(s) == s.phase = "running"
ResetNext(s) == [phase |-> "running", k |-> 0, ep |-> s.ep + 1]
(* viol: the violation degree of the state reached is at least 1 *)
StepNext(s, viol) == [s EXCEPT !.phase = IF viol THEN "idle" ELSE "running", !.k = @ + 1]
ExchangeNext(s) == [s EXCEPT !.phase = "idle"]
CloseNext(s) == s

(* ---- events one call delivers to every registered callback --------------- *)
ResetEvents(s) == << [ev |-> "reset_begin"], [ev |-> "reset_end"] >>
StepEvents(s, viol) == << [ev |-> "step_begin", k |-> s.k], [ev |-> "step_end", k |-> s.k + 1, term |-> viol] >>
CloseEvents == << [ev |-> "close"] >>
(* n callbacks are served in registration order, the visualizations last *)
Interleave(evs, n) ==
  [i \in 1..(Len(evs) * n) |-> [cb |-> ((i - 1) % n) + 1, e |-> evs[((i - 1) \div n) + 1]]]
=============================================================================
