---------------------------- MODULE CascadeTrace ----------------------------
(* Conformance of complete controllers (C26, C25, C29).  Every control cycle   *)
(* of a real controller is followed stage by stage: what a stage received is   *)
(* what the previous one was seen to hand on, what it hands on is computed     *)
(* from its law, the machine parameters and the memory kept here.              *)
EXTENDS TraceBase, Control
Init0 == [cfg |-> <<>>]
Pos(names, n) == CHOOSE k \in DOMAIN names : names[k] = n
Sel(c, ns, v) == [k \in DOMAIN ns |-> v[Pos(c.names, ns[k])]]
Bounds(c, kind, ns, keep) ==     \* keep = 1 - margin
  LET lim == Sel(c, ns, c.lim) IN
  Eager([kind |-> kind, lim |-> VScale(keep, lim), lo |-> VScale(keep, VMul(Sel(c, ns, c.low), lim)), hi |-> VScale(keep, VMul(Sel(c, ns, c.high), lim))])
ClipKind(t) == CASE t \in DcTypes -> "abs" [] t = "EESM" -> "comb" [] OTHER -> "sq"
Derive(c) ==
  LET ur == Bounds(c, ClipKind(c.t), Voltages(c.t), 1)
      tr == Bounds(c, "abs", <<"torque">>, 1)
  IN [cfg |-> c, last |-> <<>>, ur |-> ur, tr |-> tr, ir |-> Bounds(c, ClipKind(c.t), Currents(c.t), 1 -- c.margin),
      out |-> Sel(c, OutVoltages(c.t), c.lim), outr |-> [k \in DOMAIN OutVoltages(c.t) |-> LET j == Pos(c.names, OutVoltages(c.t)[k]) IN <<c.low[j] ** c.lim[j], c.high[j] ** c.lim[j]>>],
      cg |-> Eager(CurrentGains(c.t, c.mp, c.tau, c.a, ur)), sg |-> Eager(SpeedGains(c.t, c.mp, c.tau, c.a, c.j, c.cc, tr)),
      cm |-> Mem0(Len(Currents(c.t))), sm |-> Mem0(1)]
Loop(kind, g, tau, m, x, r) == IF kind = "ThreePoint" THEN Three(x, r, g) ELSE Eager(Law(kind, g, tau, m, VSub(r, x)))
CloseV(u, v, scale) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], "1e-8", "1e-9" ** FMax("1e-6", scale[k]))
Has1(s) == s # <<>>
Advance(kind, m, tau, e, flags) == [z |-> IF HasI(kind) THEN Integrate(m.z, tau, e, flags) ELSE m.z, last |-> Eager(e)]

SameRefs(a, b) == /\ Len(a) = Len(b)
                  /\ \A k \in DOMAIN a : \E j \in DOMAIN b : a[k].n = b[j].n /\ FClose(a[k].v, b[j].v, "1e-9", "1e-12")
(* What a dashboard of the environment shows besides the references of the     *)
(* environment: the references of the subordinate stages, at the time of the   *)
(* state they were computed from, and the reduced limits of direct currents.   *)
Shown(s, e) ==
  LET c == s.cfg
      cur == Currents(c.t)
      most == IF c.task = "CC" THEN <<>> ELSE SelectSeq([k \in DOMAIN cur |-> [n |-> cur[k], lim |-> <<s.ir.lo[k], s.ir.hi[k]>>]], LAMBDA x : x.n \in {"i", "i_a", "i_e"})
  IN IF ~c.plots THEN IF e.refs = <<>> /\ e.most = <<>> THEN OK(s) ELSE BAD(s, "references of states without reference in the plots")
     ELSE [st |-> s, v |-> FirstBad(<<
       <<"references of the stages in the plots", SameRefs(s.last, e.refs)>>,
       <<"maximum references in the plots", /\ Len(most) = Len(e.most)
             /\ \A k \in DOMAIN most : \E j \in DOMAIN e.most : most[k].n = e.most[j].n /\ CloseV(most[k].lim, e.most[j].lim, most[k].lim)>> >>, 1)]

Control1(s, e) ==
  LET c == s.cfg
      X(n) == LET j == Pos(c.names, n) IN e.obs[j] ** c.lim[j]
      LIM(n) == c.lim[Pos(c.names, n)]
      R == [k \in DOMAIN e.ref |-> e.ref[k] ** c.lim[Pos(c.names, c.refs[k])]]
      speed == c.task = "SC"
      torque == c.task # "CC"
      dc == c.t \in DcTypes
      (* speed loop *)
      sx == <<X("omega")>>
      sraw == IF speed THEN Loop(c.sc, s.sg, c.tau, s.sm, sx, R) ELSE <<0>>
      sshould == IF speed THEN ShouldClip(s.tr, sraw) ELSE <<"any">>
      T == IF speed THEN e.tref ELSE R
      sm2 == IF speed THEN Advance(c.sc, s.sm, c.tau, VSub(R, sx), e.sflag) ELSE s.sm
      (* operating point *)
      point == IF torque /\ dc THEN AbsClip(DcPoint(c.t, c.mp, X, LIM, c.margin, T[1]), s.ir.lo, s.ir.hi) ELSE <<>>
      I == IF torque THEN e.iref ELSE R
      (* current loop *)
      cx == [k \in DOMAIN Currents(c.t) |-> X(Currents(c.t)[k])]
      craw0 == Loop(c.cc, s.cg, c.tau, s.cm, cx, I)
      craw == Eager(IF c.dec THEN Emf(c.t, c.mp, X, craw0) ELSE craw0)
      cclip == Eager(ClipTo(s.ur, craw))
      cm2 == Advance(c.cc, s.cm, c.tau, VSub(I, cx), e.cflag)
      (* output; the voltages handed on are not visible in every task *)
      U == IF e.uref = <<>> THEN cclip ELSE e.uref
      V == Eager(IF dc THEN U ELSE ToAbc(c.t, c.mp, c.tau, c.dead, X, U))
      act == Eager(IF c.fin THEN <<>> ELSE [k \in DOMAIN V |-> V[k] // s.out[k]])
      (* references of the subordinate stages *)
      refs == (IF torque THEN [k \in DOMAIN I |-> [n |-> Currents(c.t)[k], v |-> I[k]]] ELSE <<>>) \o (IF speed THEN <<[n |-> "torque", v |-> T[1]]>> ELSE <<>>)
  IN [st |-> [s EXCEPT !.cm = cm2, !.sm = sm2, !.last = refs],
      v |-> FirstBad(<<
        <<"observation or reference modified", e.same>>,
        <<"references reported by the stages", SameRefs(refs, e.refs)>>,
        <<"torque reference of the speed loop", ~speed \/ CloseV(AbsClip(sraw, s.tr.lo, s.tr.hi), e.tref, s.tr.hi)>>,
        <<"clipping reported by the speed loop", ~speed \/ FlagsOk(sshould, e.sflag)>>,
        <<"current references beyond the reduced limits", ~torque \/ InRange(s.ir, e.iref, "1e-9")>>,
        <<"operating point", ~(torque /\ dc) \/ CloseV(point, e.iref, s.ir.hi)>>,
        <<"voltage references of the current loop", CloseV(cclip, U, s.ur.lim)>>,
        <<"voltage references beyond the limits", InRange(s.ur, U, "1e-9" ** s.ur.lim[1])>>,
        <<"clipping reported by the current loop", FlagsOk(ShouldClip(s.ur, craw), e.cflag)>>,
        <<"integrators of the current loop", ~HasI(c.cc) \/ CloseV(cm2.z, e.z, [k \in DOMAIN cm2.z |-> "1e-3"])>>,
        <<"integrators of the speed loop", ~(speed /\ HasI(c.sc)) \/ CloseV(sm2.z, e.sz, <<"1e-3">>)>>,
        <<"action of a finite control set", ~c.fin \/ (Len(e.act) = Len(V) /\ \A k \in DOMAIN V : e.act[k] \in Levels(c.nvec[k], V[k], s.outr[k]))>>,
        <<"normalised action", c.fin \/ CloseV(act, e.act, [k \in DOMAIN act |-> 1])>>,
        <<"action outside of the action space", c.fin \/ \A k \in DOMAIN e.act : (c.alow[k] -- "1e-9" \preceq e.act[k]) /\ (e.act[k] \preceq c.ahigh[k] ++ "1e-9")>> >>, 1)]

GainsOk(kind, g, e) == /\ kind = "ThreePoint" \/ NearTolV(g.p, e.p, "1e-9")
                       /\ ~HasI(kind) \/ NearTolV(g.i, e.i, "1e-9")
                       /\ kind # "PID" \/ NearTolV(g.d, e.d, "1e-9")
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "make" -> OK(Derive(e))
    [] e.ev = "gains" -> [st |-> s, v |-> FirstBad(<<
          <<"gains of the current loop", GainsOk(s.cfg.cc, s.cg, e.cc)>>,
          <<"gains of the speed loop", s.cfg.task # "SC" \/ GainsOk(s.cfg.sc, s.sg, e.sc)>> >>, 1)]
    [] e.ev = "reset" -> OK([s EXCEPT !.cm = Mem0(Len(s.cm.z)), !.sm = Mem0(1)])
    [] e.ev = "control" -> Control1(s, e)
    [] e.ev = "shown" -> Shown(s, e)
    (* the same controller made again and used alone, or after a reset, answers alike *)
    [] e.ev = "twin" -> IF e.a = e.b THEN OK(s) ELSE BAD(s, "answers depend on " \o e.what)
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
