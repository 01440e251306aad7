------------------------------ MODULE DashTrace ------------------------------
(* Conformance of dashboards (C27): what the figure shows after every history  *)
(* of resets, steps, terminations, renders and clears.                         *)
EXTENDS TraceBase, Dashboard
Init0 == [cfg |-> <<>>, d |-> D0(0), unjudged |-> TRUE]
P(s) == s.cfg.plots
AtOf(c) == [j \in DOMAIN c.plots |-> IF c.plots[j].kind \in {"state", "ref"} THEN 1 ELSE 0]
Value(p, e) == CASE p.kind = "state" -> e.state[p.idx] ** p.lim
                 [] p.kind = "ref" -> e.ref[p.idx] ** p.lim
                 [] p.kind = "action" -> e.act[p.idx]
                 [] p.kind = "reward" -> e.reward
Same(a, b) == FClose(a, b, "1e-9", "1e-12")
(* x values are times n * tau, accumulated by the dashboard *)
TimeIs(c, n, x) == FClose(n ** c.tau, x, "1e-9", "1e-9" ** c.tau)
SeriesOk(c, s, pts) == Len(s) = Len(pts) /\ \A i \in DOMAIN s : TimeIs(c, s[i].n, pts[i][1]) /\ Same(s[i].v, pts[i][2])
MarksOk(c, ns, xs) == Len(ns) = Len(xs) /\ \A i \in DOMAIN ns : TimeIs(c, ns[i], xs[i])
EpOk(eps, f(_, _), pts) == Len(eps) = Len(pts) /\ \A i \in DOMAIN eps : FEq(pts[i][1], eps[i].no) /\ f(eps[i], pts[i][2])
LenOf(e, y) == FEq(e.len, y)
MeanOf(e, y) == e.len = 0 \/ Same(e.mean, y)
StepPts(v, pts) == Len(v) = Len(pts) /\ \A i \in DOMAIN v : FEq(pts[i][1], v[i].x) /\ FEq(pts[i][2], v[i].y)
(* f: what the figure shows *)
Judge(c, d, f) ==
  LET b == d.shown IN FirstBad(<<
    <<"values of the time plots", \A j \in DOMAIN c.plots : SeriesOk(c, b.series[j], f.time[j])>>,
    <<"marks of violations", \A j \in DOMAIN f.vmarks : MarksOk(c, b.vmarks, f.vmarks[j])>>,
    <<"marks of resets", \A j \in DOMAIN f.rmarks : MarksOk(c, b.rmarks, f.rmarks[j])>>,
    <<"window of the time plots", \A j \in DOMAIN f.xlim : FClose(f.xlim[j][2] -- f.xlim[j][1], c.width ** c.tau, "1e-9", "1e-12")
                                     /\ (b.n ** c.tau) \preceq (f.xlim[j][2] ++ ("1e-6" ** c.tau)) /\ f.xlim[j][1] \preceq ((b.n ** c.tau) ++ ("1e-6" ** c.tau))>>,
    <<"lengths of the episodes", \A j \in DOMAIN f.lens : EpOk(b.episodes, LenOf, f.lens[j])>>,
    <<"mean rewards of the episodes", \A j \in DOMAIN f.means : EpOk(b.episodes, MeanOf, f.means[j])>>,
    <<"cumulated violations", \A j \in DOMAIN f.cums : StepPts(b.viols, f.cums[j])>> >>, 1)
Look(s, f) == IF f = <<>> \/ ~s.d.drawn THEN OK(s) ELSE [st |-> s, v |-> Judge(s.cfg, s.d, f)]
Step(s, e) ==
  LET c == s.cfg IN
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "dash" -> OK([cfg |-> e, d |-> D0(Len(e.plots)), unjudged |-> TRUE])
    [] e.ev = "reset" -> OK([s EXCEPT !.d = OnReset(s.d)])
    [] e.ev = "step" -> LET d2 == OnStep(s.d, Eager([j \in DOMAIN c.plots |-> Value(c.plots[j], e)]), AtOf(c), e.reward, e.term, c.width, c.interval)
                            s2 == [s EXCEPT !.d = IF c.auto THEN OnRender(d2) ELSE d2]
                        IN Look(s2, e.fig)
    [] e.ev = "render" -> Look([s EXCEPT !.d = OnRender(s.d)], e.fig)
    [] e.ev = "force" -> Look([s EXCEPT !.d = OnForce(s.d)], e.fig)
    [] e.ev = "clear" -> OK([s EXCEPT !.d = OnClear(s.d)])
    (* the same history without a dashboard, or with one that is never rendered *)
    [] e.ev = "saved" -> IF e.ok THEN OK(s) ELSE BAD(s, "figures saved to a file")
    [] e.ev = "twin" -> IF e.a = e.b THEN OK(s) ELSE BAD(s, "the environment behaves differently when it is shown")
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
