----------------------------- MODULE ClockTrace -----------------------------
(* Trace specification of C06.  Events:                                        *)
(*  "system" tau configured, taus = sampling times reported by the components  *)
(*  "reset"/"step" k, t (solver), set = times given with actions, ends = what  *)
(*   the converter answered, asked = times at which its voltage was asked,     *)
(*   sup = times of supply queries, prof = times of speed profile evaluations, *)
(*   us (optional) = delivered supply voltage, w (optional) = speed            *)
EXTENDS TraceBase, Clock
Init0 == [c |-> <<>>]
RECURSIVE Sorted(_, _)
Sorted(v, i) == i >= Len(v) \/ (v[i] \preceq v[i + 1] /\ Sorted(v, i + 1))
Sine(w, t) == (w.amp ** FSin((TwoPi ** w.f ** t) ++ w.phi)) ++ w.off
Step(st, e) ==
  CASE e.ev = "exc" -> BAD(st, "unexpected exception: " \o e.msg)
    [] e.ev = "system" ->
       [st |-> [c |-> ClockReset(e.tau), sys |-> e],
        v |-> FirstBad(<< <<"the configured sampling time is in effect in every component", \A i \in DOMAIN e.taus : FEq(e.taus[i], e.tau)>> >>, 1)]
    [] e.ev = "reset" ->
       LET c == ClockReset(st.c.tau) IN
       [st |-> [st EXCEPT !.c = c],
        v |-> FirstBad(<< <<"a reset sets the step counter to 0", e.k = 0>>,
                          <<"a reset sets the simulation time to 0", FEq(e.t, 0)>>,
                          <<"a reset evaluates the speed profile at time 0", \A i \in DOMAIN e.prof : ProfileTime(c, e.prof[i])>>,
                          <<"a reset asks the supply at time 0", \A i \in DOMAIN e.sup : FEq(e.sup[i], 0)>>,
                          <<"speed after a reset is the profile at time 0", Has(e, "w") => FClose(e.w, Sine(st.sys.w, 0), "1e-6", "1e-6")>>,
                          <<"supply voltage after a reset", Has(e, "us") => FClose(e.us, Sine(st.sys.us, 0), "1e-6", "1e-6" ** st.sys.us.amp)>> >>, 1)]
    [] e.ev = "step" ->
       LET c == st.c  d == ClockStep(c) IN
       [st |-> [st EXCEPT !.c = d],
        v |-> FirstBad(<< <<"the step counter counts the steps", e.k = d.k>>,
                          <<"the simulation time is n tau", SameTime(c, e.t, Now(d))>>,
                          <<"the converter is switched once, at the begin of the step", Len(e.set) = 1 /\ SameTime(c, e.set[1], Now(c))>>,
                          <<"the converter's intervals fill the step", EndsOk(c, e.ends)>>,
                          <<"the converter is asked at the ends of its intervals", AskedOk(c, e.asked, e.ends)>>,
                          <<"the supply is asked at the begin of the step", Len(e.sup) > 0 /\ \A i \in DOMAIN e.sup : SameTime(c, e.sup[i], Now(c))>>,
                          <<"the speed profile is evaluated at times of this step", \A i \in DOMAIN e.prof : ProfileTime(c, e.prof[i])>>,
                          <<"the supply voltage is that of this step's time",
                            Has(e, "us") => FClose(e.us, Sine(st.sys.us, Now(c)), "1e-6", "1e-6" ** st.sys.us.amp)>>,
                          <<"the speed is the profile at n tau", Has(e, "w") => FClose(e.w, Sine(st.sys.w, Now(d)), "1e-5", "1e-5")>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
