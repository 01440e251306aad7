------------------------------ MODULE RampTrace ------------------------------
(* Conformance of the ramping limit margin (C28), read off the references that *)
(* the environment shows: generators whose reference is their upper / lower     *)
(* margin ("hi", "lo"), and generators that stay somewhere inside ("in").        *)
EXTENDS TraceBase, References
Init0 == [m |-> [lo |-> 0, hi |-> 0], n |-> 0, cfg |-> <<>>]
T12(a, b) == FClose(a, b, "1e-12", "1e-12")
After(s, unit) == IF s.cfg.unit # unit THEN s
                  ELSE IF (s.n + 1) % s.cfg.freq = 0 THEN [s EXCEPT !.n = @ + 1, !.m = Eager(Ramp(s.m, s.cfg.step, s.cfg.max))]
                  ELSE [s EXCEPT !.n = @ + 1]
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "setup" -> OK([m |-> e.initial, n |-> 0, cfg |-> e])
    [] e.ev = "refuse" -> IF e.refused THEN OK(s) ELSE BAD(s, "an unsupported reference generator is accepted")
    [] OTHER ->       \* "step" or "reset": the reference drawn before this event's update
         [st |-> After(s, e.ev),
          v |-> FirstBad(<< <<"upper margin", e.side # "hi" \/ T12(e.x, s.m.hi)>>,
                            <<"lower margin", e.side # "lo" \/ T12(e.x, s.m.lo)>>,
                            <<"reference within the current margin", ((s.m.lo -- "1e-12") \preceq e.x) /\ (e.x \preceq (s.m.hi ++ "1e-12"))>>,
                            <<"margin within the maximum", (s.cfg.max.lo \preceq s.m.lo) /\ (s.m.hi \preceq s.cfg.max.hi)>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
