----------------------------- MODULE EpisodeTrace -----------------------------
(* Conformance of control_environment (C26): the calls that a controller and    *)
(* an environment receive while the first controls the second.                  *)
EXTENDS TraceBase, EpisodeControl
Init0 == [m |-> M0, cfg |-> <<>>, rendered |-> 0, ch |-> NoChain]
Must(s, ok, m2, what) == IF ok THEN OK([s EXCEPT !.m = m2]) ELSE BAD(s, what)
Step(s, e) ==
  LET m == s.m  max == IF s.cfg = <<>> THEN NoMax ELSE s.cfg.max IN
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "run" -> OK([m |-> M0, cfg |-> e, rendered |-> 0, ch |-> NoChain])
    [] e.ev = "reset" -> Must(s, MayResetEnv(m, max), ResetEnv(m, e.obs), "environment reset within an episode")
    [] e.ev = "ctrlreset" -> Must(s, MayResetCtrl(m, max), ResetCtrl(m), "controller reset within an episode")
    [] e.ev = "render" -> IF s.cfg.render THEN OK([s EXCEPT !.rendered = @ + 1]) ELSE BAD(s, "rendered without being asked to")
    [] e.ev = "control" -> [st |-> [s EXCEPT !.m = Control(m, e.act)], v |-> FirstBad(<<
         <<"controlled before a reset or beyond the end of an episode", m.env = "running" /\ ~Over(m, max)>>,
         <<"controller not reset with the environment", m.len > 0 \/ m.fresh>>,
         <<"controller reset within an episode", m.len = 0 \/ ~m.fresh>>,
         <<"not the latest observation", MayControl(m, max, e.obs)>> >>, 1)]
    [] e.ev = "step" -> [st |-> [s EXCEPT !.m = Advance(m, e.obs, e.end)], v |-> FirstBad(<<
         <<"stepped a finished episode", m.env = "running" /\ ~Over(m, max)>>,
         <<"not the action of the controller", MayStep(m, max, e.act)>> >>, 1)]
    [] e.ev = "done" -> [st |-> s, v |-> FirstBad(<<
         <<"number of steps", Complete(m, s.cfg.n)>>,
         <<"not rendered at every step", s.rendered >= (IF s.cfg.render THEN s.cfg.n ELSE 0)>> >>, 1)]
    (* a chain of stages: each gets the state and what the one before handed on *)
    [] e.ev = "through" -> OK([s EXCEPT !.ch = Enter(e.n, e.obs, e.ref)])
    [] e.ev = "stage" -> [st |-> [s EXCEPT !.ch = Pass(s.ch, e.out)], v |-> FirstBad(<<
         <<"order of the stages", MayPass(s.ch, e.k)>>, <<"stage did not get the state", e.obs = s.ch.obs>>,
         <<"stage did not get the output of the stage before", e.ref = s.ch.ref>> >>, 1)]
    [] e.ev = "out" -> [st |-> [s EXCEPT !.ch = NoChain], v |-> FirstBad(<<
         <<"every stage is passed", Passed(s.ch)>>, <<"the output is that of the last stage", e.out = s.ch.ref>> >>, 1)]
    [] e.ev = "resets" -> IF e.resets = [k \in 1..e.n |-> 1] THEN OK(s) ELSE BAD(s, "every stage is reset with the controller")
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
