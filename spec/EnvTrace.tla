----------------------------- MODULE EnvTrace -----------------------------
(* Trace specification of C01.  Events, one per call of the real env:      *)
(*  call    "reset" "step" "swap" "close"      raised  the call raised      *)
(*  k       step counter of the physical system after the call              *)
(*  ticks   number of calls received so far by the environment's modules    *)
(*          and callbacks                                                   *)
(*  deg     violation degree of the state reached, as the constraints gave  *)
(*          it;   mx = largest normalised magnitude of the monitored states *)
(*  term, trunc   flags returned                                            *)
EXTENDS TraceBase, Env
Init0 == [e |-> EnvFresh, ticks |-> 0]
Violation(e) == IF Has(e, "deg") THEN FLe(1, e.deg) ELSE FLt(1, e.mx)

StepCall(s, e) ==
  IF Accepts(s.e) THEN
    LET n == StepNext(s.e, Violation(e))
        v == FirstBad(<< <<"a step of a running episode is accepted", ~e.raised>>,
               <<"step counter after a step", e.k = n.k>>,
               <<"terminated exactly on violation degree >= 1", e.term = Violation(e)>>,
               <<"truncated is always False", e.trunc = FALSE>> >>, 1)
    IN [st |-> [e |-> n, ticks |-> e.ticks], v |-> v]
  ELSE
    LET v == FirstBad(<< <<"a step outside a running episode is refused", e.raised>>,
               <<"a refused step does not change the step counter", e.k = s.e.k>>,
               <<"a refused step calls no module and delivers no event", e.ticks = s.ticks>> >>, 1)
    IN [st |-> s, v |-> v]
ResetCall(s, e) ==
    [st |-> [e |-> ResetNext(s.e), ticks |-> e.ticks],
     v |-> FirstBad(<< <<"a reset is accepted in every phase", ~e.raised>>,
                       <<"the step counter is 0 after a reset", e.k = 0>> >>, 1)]
SwapCall(s, e) ==
    [st |-> [e |-> ExchangeNext(s.e), ticks |-> e.ticks],
     v |-> FirstBad(<< <<"exchanging a component is accepted", ~e.raised>> >>, 1)]
CloseCall(s, e) ==
    [st |-> [e |-> CloseNext(s.e), ticks |-> e.ticks],
     v |-> FirstBad(<< <<"close is accepted", ~e.raised>>, <<"close does not change the step counter", e.k = s.e.k>> >>, 1)]
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "env" -> [st |-> [e |-> EnvFresh, ticks |-> e.ticks],
                        v |-> FirstBad(<< <<"no episode runs before the first reset", e.k = 0>> >>, 1)]
    [] e.ev = "step" -> StepCall(s, e)
    [] e.ev = "reset" -> ResetCall(s, e)
    [] e.ev = "swap" -> SwapCall(s, e)
    [] e.ev = "close" -> CloseCall(s, e)
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
