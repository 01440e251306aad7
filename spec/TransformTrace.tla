--------------------------- MODULE TransformTrace ---------------------------
(* Conformance of the transformations and of every returned state (C17).      *)
(*  fn:     results of the public functions for v (abc), w (two components), e *)
(*  drive:  sys "sync" | "scim" | "dfim", p, tau, plain (no switching sections) *)
(*  state:  reset TRUE/FALSE, e, iabc, idq, uabc, udq [, irabc ...], w [, ang]   *)
(*          after a dq command: act, adv (steps of angle advance), usup; the     *)
(*          commands of a dead time are remembered in order                      *)
EXTENDS TraceBase, Transforms
Init0 == [d |-> [sys |-> "none"], q |-> <<>>]
T8 == "1e-8"
Norm(v) == FSqrt(FSum([i \in DOMAIN v |-> Sq(v[i])]))
(* commands may be given in single precision *)
SameCmd(a, b) == \A i \in DOMAIN a : FClose(a[i], b[i], "1e-6", "1e-6")
SameVec(a, b) == LET t == T8 ++ (T8 ** (Norm(a) ++ Norm(b))) IN Len(a) = Len(b) /\ \A i \in DOMAIN a : FClose(a[i], b[i], 0, t)
Fn(e) == << <<"abc to alpha-beta", SameVec(e.t23, T23(e.v))>>, <<"alpha-beta to abc", SameVec(e.t32, T32(e.w))>>,
            <<"dq to alpha-beta", SameVec(e.q, Rot(e.w, e.e))>>, <<"alpha-beta to dq", SameVec(e.qi, Rot(e.w, FNeg(e.e)))>>,
            <<"abc to dq", SameVec(e.adq, AbcToDq(e.v, e.e))>>, <<"dq to abc", SameVec(e.dabc, DqToAbc(e.w, e.e))>>,
            <<"inverse of alpha-beta", SameVec(e.r1, e.w)>>, <<"inverse of dq", SameVec(e.r2, e.w)>>, <<"inverse of abc", SameVec(e.r3, e.w)>> >>
Angle(v) == FAtan2(v[2], v[1])
(* field angle of an induction machine's state, from its stator currents; "none" without current *)
Field(s) == IF Norm(s.idq) \prec "1e-6" THEN "none" ELSE Wrap(Angle(T23(s.iabc)) -- Angle(s.idq))
ClipVec(v) == [i \in DOMAIN v |-> Clip(v[i], "-1.0", "1.0")]
Expected(d, c) == [i \in 1..3 |-> ClipVec(DqToAbc(c.act, c.ang ++ (((c.adv ** d.tau) ** c.w) ** d.p)))[i] ** "0.5"]
State(d, pv, s) ==
  LET ang == IF d.sys = "sync" THEN s.e ELSE Field(s)
      pang == IF Has(pv, "e") THEN (IF d.sys = "sync" THEN pv.e ELSE Field(pv)) ELSE "none"
  IN << <<"angle range", s.e \preceq (Pi ++ "1e-12") /\ (FNeg(Pi ++ "1e-12") \preceq s.e)>>,
        <<"sum of phase currents", FClose((s.iabc[1] ++ s.iabc[2]) ++ s.iabc[3], 0, 0, T8 ++ (T8 ** Norm(s.iabc)))>>,
        <<"current amplitude", FClose(Norm2(T23(s.iabc)), Norm2(s.idq), T8, T8)>>,
        <<"phase currents and dq currents", ang = "none" \/ SameVec(s.iabc, DqToAbc(s.idq, ang))>>,
        <<"dq voltages", \/ ~s.reset /\ (~d.plain \/ pang = "none")
                         \/ s.reset /\ ang = "none"
                         \/ SameVec(s.udq, AbcToDq(s.uabc, IF s.reset THEN ang ELSE pang))>>,
        <<"dq voltages after an interlocking interval",
          (s.reset \/ ~Has(s, "sections") \/ ~FClose(pv.w, s.w, "1e-9", "1e-9"))
          \/ SameVec(s.udq, AbcToDq(s.uabc, IF s.sections = 1 THEN pv.e ELSE pv.e ++ ((d.p ** s.w) ** d.til)))>>,
        <<"rotor currents", ~Has(s, "irabc") \/ ang = "none" \/ SameVec(s.irabc, DqToAbc(s.irdq, ang -- s.e))>>,
        <<"rotor voltages", ~Has(s, "irabc") \/ s.reset \/ ~d.plain \/ pang = "none" \/ SameVec(s.urdq, AbcToDq(s.urabc, pang -- pv.e))>> >>
Applied(d, c, s) ==
  LET want == Expected(d, c) IN
  << <<"voltages of a dq command", c.ang = "none" \/ SameCmd([i \in 1..3 |-> s.uabc[i] // s.usup], want)>>,
     <<"rotor voltages of a dq command", ~Has(c, "actr") \/
        SameCmd([i \in 1..3 |-> s.urabc[i] // s.usup],
                [i \in 1..3 |-> ClipVec(DqToAbc(c.actr, c.psi -- (c.ang ++ (((c.adv ** d.tau) ** c.w) ** d.p))))[i] ** "0.5"])>>,
     <<"excitation voltage passed through", ~Has(c, "acte") \/ FClose(s.ue, c.acte ** s.usup, "1e-6", "1e-6" ** s.usup)>> >>
Present(st) == IF Has(st.pv, "ang") THEN st.pv.ang ELSE IF st.d.sys = "sync" THEN st.pv.e ELSE Field(st.pv)
Step(st, e) ==
  IF e.ev = "exc" THEN BAD(st, "unexpected exception: " \o e.msg)
  ELSE IF e.ev = "fn" THEN [st |-> st, v |-> FirstBad(Fn(e), 1)]
  ELSE IF e.ev = "drive" THEN OK([d |-> e, q |-> <<>>, pv |-> [ok |-> FALSE]])
  ELSE \* state
    LET base == FirstBad(State(st.d, st.pv, e), 1)
        (* commands: queued, and executed dead steps later *)
        q == IF e.reset THEN [i \in 1..st.d.dead |-> [zero |-> TRUE]]
             ELSE IF ~Has(e, "act") THEN <<>>
             ELSE Append(st.q, LET c == [act |-> e.act, late |-> e.late, adv |-> e.adv, w |-> st.pv.w, zero |-> FALSE,
                                          ang |-> Present(st)] IN
                               IF Has(e, "actr") THEN [actr |-> e.actr, psi |-> st.pv.psi] @@ c
                               ELSE IF Has(e, "acte") THEN [acte |-> e.acte] @@ c ELSE c)
        (* the delay lies before the transformation: it uses the state at the time of execution *)
        now(c) == [n \in DOMAIN c |-> IF n = "w" THEN st.pv.w ELSE IF n = "ang" THEN Present(st) ELSE IF n = "psi" THEN st.pv.psi ELSE c[n]]
        cmd == IF e.reset \/ q = <<>> THEN [zero |-> TRUE] ELSE IF ~Head(q).zero /\ Head(q).late THEN now(Head(q)) ELSE Head(q)
        ap == IF e.reset \/ q = <<>> THEN "ok"
              ELSE IF cmd.zero THEN FirstBad(<< <<"voltages during the dead time", SameVec(e.uabc, <<"0.0", "0.0", "0.0">>)>> >>, 1)
              ELSE FirstBad(Applied(st.d, cmd, e), 1)
    IN [st |-> [st EXCEPT !.pv = e, !.q = IF e.reset THEN q ELSE IF q = <<>> THEN q ELSE Tail(q)], v |-> IF base # "ok" THEN base ELSE ap]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
