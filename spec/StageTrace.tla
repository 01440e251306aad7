------------------------------ MODULE StageTrace ------------------------------
(* Conformance of single stages (C25): a base controller with arbitrary gains,  *)
(* the anti-windup stage that feeds its integrator, and the clipping stages.    *)
EXTENDS TraceBase, Control
Init0 == [c |-> <<>>, m |-> Mem0(1), r |-> <<>>]
Same(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FEq(u[k], v[k])
Sc(v) == FMax("1e-6", FMax(FAbs(v), "1e-300"))
(* the tolerance of a law: rounding of its largest term *)
CloseLaw(u, v, g, m, tau, e, kind) ==
  Len(u) = Len(v) /\ \A k \in DOMAIN u :
    LET scale == FSum(<<FAbs(u[k])>> \o (IF kind \in {"P", "PI", "PID"} THEN <<FAbs(g.p[k] ** e[k])>> ELSE <<>>)
                      \o (IF HasI(kind) THEN <<FAbs(g.i[k] ** m.z[k])>> ELSE <<>>)
                      \o (IF kind = "PID" THEN <<FAbs((g.d[k] ** e[k]) // tau), FAbs((g.d[k] ** m.last[k]) // tau)>> ELSE <<>>))
    IN FAbs(u[k] -- v[k]) \preceq ("1e-12" ** scale)
Range(e) == LET keep == 1 -- e.margin IN
  Eager([kind |-> e.kind, lim |-> VScale(keep, e.lim), lo |-> VScale(keep, VMul(e.low, e.lim)), hi |-> VScale(keep, VMul(e.high, e.lim))])
RangeLo(r) == CASE r.kind = "abs" -> r.lo [] r.kind = "sq" -> VScale("-1", r.lim) [] OTHER -> VScale("-1", Head2(r.lim)) \o <<r.lo[3]>>
RangeHi(r) == CASE r.kind = "abs" -> r.hi [] r.kind = "sq" -> r.lim [] OTHER -> Head2(r.lim) \o <<r.hi[3]>>
Near9(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], "1e-10", "1e-14" ** FMax(1, FAbs(v[k])))

Step(s, e) ==
  LET c == s.c IN
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "ctrl" -> [st |-> [s EXCEPT !.c = [e EXCEPT !.i = [k \in DOMAIN e.i |-> FMax(0, e.i[k])]], !.m = Mem0(e.n)],
                         v |-> FirstBad(<< <<"integral gain below zero", Same(e.iset, [k \in DOMAIN e.i |-> FMax(0, e.i[k])])>> >>, 1)]
    [] e.ev = "call" -> LET x == Pick(e.x, c.idx)
                            err == VSub(e.r, x)
                            want == IF c.kind = "ThreePoint" THEN Three(x, e.r, c) ELSE Eager(Law(c.kind, c, c.tau, s.m, err))
                        IN [st |-> [s EXCEPT !.m = Remember(s.m, Eager(err))],
                            v |-> FirstBad(<< <<"control law", IF c.kind = "ThreePoint" THEN Same(want, e.y) ELSE CloseLaw(want, e.y, c, s.m, c.tau, err, c.kind)>>,
                                              <<"inputs modified", e.same>> >>, 1)]
    [] e.ev = "windup" -> LET err == VSub(e.r, Pick(e.x, c.idx))
                              z == Integrate(s.m.z, c.tau, err, [k \in DOMAIN e.diff |-> ~FEq(e.diff[k], 0)])
                          IN [st |-> [s EXCEPT !.m.z = z],
                              v |-> FirstBad(<< <<"anti-windup stops exactly the clipped paths", \A k \in DOMAIN e.diff : ~FEq(e.diff[k], 0) => FEq(e.d[k], 0)>>,
                                                <<"integrated error", Near9(z, e.z)>> >>, 1)]
    [] e.ev = "integrate" -> LET err == VSub(e.r, Pick(e.x, c.idx))
                                 z == Integrate(s.m.z, c.tau, err, [k \in DOMAIN err |-> FALSE])
                             IN [st |-> [s EXCEPT !.m.z = z], v |-> FirstBad(<< <<"integrated error", Near9(z, e.z)>> >>, 1)]
    [] e.ev = "reset" -> OK([s EXCEPT !.m = Mem0(Len(s.m.z))])
    (* clipping stages *)
    [] e.ev = "clipper" -> LET r == Range(e) IN
         [st |-> [s EXCEPT !.r = r],
          v |-> FirstBad(<< <<"action range", Near9(RangeLo(r), e.rlo) /\ Near9(RangeHi(r), e.rhi)>>,
                            <<"clipping reported before any use", \A k \in DOMAIN e.diff : FEq(e.diff[k], 0)>> >>, 1)]
    [] e.ev = "clip" -> LET want == Eager(ClipTo(s.r, e.x))
                            x == Excess(s.r, e.x)
                            inside == \A k \in DOMAIN x : x[k] \prec "-1e-12"
                        IN [st |-> s, v |-> FirstBad(<<
           <<"value changed inside of the range", ~inside \/ Same(e.x, e.y)>>,
           <<"clipped value", Len(want) = Len(e.y) /\ \A k \in DOMAIN want : FClose(want[k], e.y[k], "1e-10", "1e-12" ** s.r.lim[k])>>,
           <<"value beyond the range", InRange(s.r, e.y, "1e-12" ** FMax(s.r.lim[1], s.r.lim[Len(s.r.lim)]))>>,
           <<"clipping difference", Len(e.diff) = Len(e.x) /\ \A k \in DOMAIN e.x : FEq(e.diff[k], e.x[k] -- e.y[k])>>,
           <<"clipping flags", \A k \in DOMAIN e.x : e.flag[k] = ~FEq(e.diff[k], 0)>>,
           <<"inputs modified", e.same>> >>, 1)]
    (* output stages *)
    [] e.ev = "output" -> OK([s EXCEPT !.c = e])
    [] e.ev = "command" -> [st |-> s, v |-> FirstBad(<<
           <<"inputs modified", e.same>>,
           <<"command per converter part", Len(e.y) = Len(e.u) /\ Len(e.u) = Len(c.lim)>>,
           <<"action of a finite control set", ~c.fin \/ \A k \in DOMAIN e.u : e.y[k] \in Levels(c.nvec[k], e.u[k], <<c.low[k] ** c.lim[k], c.high[k] ** c.lim[k]>>)>>,
           <<"normalised action", c.fin \/ \A k \in DOMAIN e.u : FClose(e.u[k] // c.lim[k], e.y[k], "1e-12", "1e-15")>> >>, 1)]
    [] e.ev = "cleared" -> IF \A k \in DOMAIN e.diff : FEq(e.diff[k], 0) /\ ~e.flag[k] THEN OK(s) ELSE BAD(s, "clipping reported after a reset")
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
