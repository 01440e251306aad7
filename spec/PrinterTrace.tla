----------------------------- MODULE PrinterTrace -----------------------------
(* Conformance of the console printer (C27).                                   *)
EXTENDS TraceBase, Printer
Init0 == [cfg |-> <<>>, p |-> P0, state |-> <<>>, ref |-> <<>>, reward |-> "none"]
(* three decimals are printed *)
Shown(v, x) == FClose(v, x, "1e-9", "6e-4")
ShownV(v, lim, xs) == Len(v) = Len(xs) /\ \A i \in DOMAIN v : Shown(v[i] ** lim[i], xs[i])
(* the line about the reset that begins the first episode is not judged: no episode has ended *)
EpisodeOk(p, l) == p.ended.no > 0 =>
  /\ l.no = p.ended.no /\ l.steps = p.ended.steps /\ Shown(p.ended.cum, l.cum) /\ l.violated = p.ended.violated
Judge(s, out) ==
  LET c == s.cfg  p == s.p  want == EpisodeLine(p, c.verbose)  step == StepLine(p, c.verbose, c.freq) IN FirstBad(<<
    <<"a line for the episode that ended, once", (want /\ p.ended.no > 0 => Len(out.episode) = 1) /\ (~want => out.episode = <<>>)>>,
    <<"number, length, reward and reason of the episode that ended", \A i \in DOMAIN out.episode : EpisodeOk(p, out.episode[i])>>,
    <<"a line for the last step at the update frequency", Len(out.step) = (IF step THEN 1 ELSE 0)>>,
    <<"episode and step of the printed line", \A i \in DOMAIN out.step : out.step[i].no = p.no /\ out.step[i].k = p.k>>,
    <<"physical state and reference of the printed line", \A i \in DOMAIN out.step : ShownV(s.state, c.lim, out.step[i].state) /\ ShownV(s.ref, c.lim, out.step[i].ref)>>,
    <<"reward of the printed step", \A i \in DOMAIN out.step : p.k > 0 => Shown(s.reward, out.step[i].reward)>>,
    <<"cumulative reward of the episode", \A i \in DOMAIN out.step : Shown(p.cum, out.step[i].cum)>> >>, 1)
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "printer" -> OK([Init0 EXCEPT !.cfg = e])
    [] e.ev = "reset" -> OK([s EXCEPT !.p = POnReset(s.p), !.state = e.state, !.ref = e.ref])
    [] e.ev = "step" -> OK([s EXCEPT !.p = POnStep(s.p, e.reward, e.term), !.state = e.state, !.ref = e.ref, !.reward = e.reward])
    [] e.ev = "render" -> [st |-> [s EXCEPT !.p = POnRender(s.p, s.cfg.verbose)], v |-> Judge(s, e.out)]
    [] e.ev = "twin" -> IF e.a = e.b THEN OK(s) ELSE BAD(s, "the environment behaves differently when it is shown")
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
