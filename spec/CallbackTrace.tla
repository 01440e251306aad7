--------------------------- MODULE CallbackTrace ---------------------------
(* Trace specification of C02.  First event "env": number n of callbacks    *)
(* (visualizations last), state filter, number of states.  Then one event   *)
(* per call with the list of callback events received, in order of arrival. *)
EXTENDS TraceBase, Env
Init0 == [e |-> EnvFresh, n |-> 0, filter |-> <<>>, ns |-> 0]

Kinds(evs) == [i \in DOMAIN evs |-> evs[i].ev]
Expected(evs, n) == [i \in 1..(Len(evs) * n) |-> <<((i - 1) % n) + 1, evs[((i - 1) \div n) + 1].ev>>]
Received(r) == [i \in DOMAIN r |-> <<r[i].cb, r[i].ev>>]
Delivered(s, r, evs) == Received(r) = Expected(evs, s.n)
Of(r, kind) == {i \in DOMAIN r : r[i].ev = kind}
Filtered(s, v) == [i \in DOMAIN s.filter |-> v[s.filter[i] + 1]]
FullState(s, r, e) == Len(r.state) = s.ns /\ Filtered(s, r.state) = e.obs
Clauses(s, e, want) ==
  << <<"exactly the events of this call, served in registration order, visualizations last", Delivered(s, e.recv, want)>>,
     <<"step-begin carries the index of the step", \A i \in Of(e.recv, "step_begin") : e.recv[i].k = s.e.k>>,
     <<"step-begin carries the action as given", \A i \in Of(e.recv, "step_begin") : e.recv[i].action = e.action>>,
     <<"step-end carries the next index", \A i \in Of(e.recv, "step_end") : e.recv[i].k = s.e.k + 1>>,
     <<"the event carries the full state reached", \A i \in Of(e.recv, "step_end") \cup Of(e.recv, "reset_end") : FullState(s, e.recv[i], e)>>,
     <<"the event carries the reference valid for the state", \A i \in Of(e.recv, "step_end") \cup Of(e.recv, "reset_end") : e.recv[i].ref = e.ref>>,
     <<"step-end carries the reward returned", \A i \in Of(e.recv, "step_end") : e.recv[i].reward = e.reward>>,
     <<"step-end carries the termination flag returned", \A i \in Of(e.recv, "step_end") : e.recv[i].term = e.term>> >>
Viol(e) == FLe(1, e.deg)
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "env" -> [st |-> [e |-> EnvFresh, n |-> e.n, filter |-> e.filter, ns |-> e.ns],
                        v |-> FirstBad(<< <<"every callback is given its environment once", e.setenv = [i \in 1..e.n |-> 1]>> >>, 1)]
    [] e.ev = "reset" -> [st |-> [s EXCEPT !.e = ResetNext(@)],
                          v |-> IF e.raised THEN "reset raised" ELSE FirstBad(Clauses(s, e, ResetEvents(s.e)), 1)]
    [] e.ev = "step" -> IF Accepts(s.e) THEN
                            [st |-> [s EXCEPT !.e = StepNext(@, Viol(e))],
                             v |-> IF e.raised THEN "accepted step raised"
                                   ELSE FirstBad(Clauses(s, e, StepEvents(s.e, Viol(e))), 1)]
                        ELSE [st |-> s, v |-> FirstBad(<< <<"a refused step delivers no event", e.recv = <<>>>> >>, 1)]
    [] e.ev = "swap" -> [st |-> [s EXCEPT !.e = ExchangeNext(@)],
                         v |-> FirstBad(<< <<"an exchange delivers no event", e.recv = <<>>>> >>, 1)]
    [] e.ev = "close" -> [st |-> s, v |-> FirstBad(<< <<"close delivers one close event per callback", Delivered(s, e.recv, CloseEvents)>> >>, 1)]
    [] e.ev = "render" -> [st |-> s, v |-> FirstBad(<< <<"render delivers no event", e.recv = <<>>>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
