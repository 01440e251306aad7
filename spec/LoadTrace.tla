----------------------------- MODULE LoadTrace -----------------------------
(* Trace specification of C18.                                              *)
EXTENDS TraceBase, Loads, Defaults
Init0 == [kind |-> "none"]
T9(a, b) == FClose(a, b, "1e-9", "1e-9")
LoadDefaults == [a |-> 0, b |-> 0, c |-> 0, j_load |-> "1e-5"]
Par(user) == [f \in DOMAIN LoadDefaults |-> IF f \in DOMAIN user THEN user[f] ELSE LoadDefaults[f]]
PolyState(e) == LET q == Par(e.user) IN [kind |-> "poly", a |-> q.a, b |-> q.b, c |-> q.c, j |-> q.j_load ++ e.j_rotor]
OdeClauses(s, e) ==
  CASE s.kind = "poly" ->
       << <<"acceleration = (motor torque - load torque) / total inertia", FClose(PolyOde(s, e.w, e.torque), e.dw, "1e-9", "1e-9")>>,
          <<"d(acceleration)/d(speed)", Has(e, "jw") /\ FClose(PolyDw(s, e.w), e.jw, "1e-9", "1e-9")>>,
          <<"d(acceleration)/d(torque)", T9(PolyDt(s), e.jt)>>,
          <<"friction never drives", FEq(e.torque, 0) => (e.dw ** e.w) \preceq "1e-12">>,
          <<"no load torque at standstill", (FEq(e.w, 0) /\ FEq(e.torque, 0)) => FEq(e.dw, 0)>> >>
    [] s.kind = "const" ->
       << <<"constant speed: no acceleration for any torque", FEq(e.dw, 0)>>,
          <<"constant speed: zero Jacobian", FEq(e.jw, 0) /\ FEq(e.jt, 0)>> >>
    [] s.kind = "ext" -> << <<"external speed follows the profile at the given time", FClose(ExternalOde(s.prof, s.tau, e.t, e.w), e.dw, "1e-8", "1e-6")>> >>
    [] s.kind = "ou" ->
       << <<"noiseless Ornstein-Uhlenbeck drift", FEq(s.ou.sigma, 0) => FClose(OuOde(s.ou, e.w), e.dw, "1e-9", "1e-12")>>,
          <<"Ornstein-Uhlenbeck speed stays in its range",
            /\ s.ou.lo -- "1e-9" \preceq (e.w ++ e.dw ** s.ou.tau)
            /\ (e.w ++ e.dw ** s.ou.tau) \preceq (s.ou.hi ++ "1e-9")>> >>
(* a whole simulated system: the speed recorded at step n *)
SysClauses(s, e) ==
  CASE s.kind = "const" -> << <<"constant speed in every state", FClose(s.fixed, e.w, "1e-9", "1e-9")>> >>
    [] s.kind = "ext" -> << <<"the speed of the system is the profile at this time",
                              FClose(Profile(s.prof, e.n ** s.tau), e.w, "1e-7", "1e-6")>> >>
    [] s.kind = "poly" -> << <<"speed integrates the torque balance (one Euler step)",
                              e.n = 0 \/ FClose(s.w ++ (s.tau ** PolyOde(s, s.w, s.torque)), e.w, "1e-8", "1e-8")>> >>
    [] s.kind = "ou" -> << <<"Ornstein-Uhlenbeck speed stays in its range", s.ou.lo -- "1e-6" \preceq e.w /\ e.w \preceq (s.ou.hi ++ "1e-6")>> >>
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "poly" ->
       [st |-> PolyState(e),
        v |-> FirstBad(<< <<"total inertia is that of load and rotor", T9(PolyState(e).j, e.j_total)>>,
                          <<"the speed limit is the configured one",
                            \A k \in DOMAIN e.ulimits : Has(e.limits, k) /\ FEq(e.ulimits[k], e.limits[k])>>,
                          <<"load parameters reported",
                            \A k \in DOMAIN LoadDefaults : Has(e.par, k) /\ FEq(e.par[k], Par(e.user)[k])>> >>, 1)]
    [] e.ev = "const" ->
       [st |-> [kind |-> "const", fixed |-> e.fixed],
        v |-> FirstBad(<< <<"omega_fixed reported", T9(e.reported, e.fixed)>> >>, 1)]
    [] e.ev = "ext" -> OK([kind |-> "ext", prof |-> e.prof, tau |-> e.tau])
    [] e.ev = "ou" -> OK([kind |-> "ou", ou |-> e.ou])
    [] e.ev = "ode" -> [st |-> s, v |-> FirstBad(OdeClauses(s, e), 1)]
    [] e.ev = "init" ->     \* reset of the load alone
       [st |-> s, v |-> FirstBad(<< <<"initial speed is the configured one", FClose(e.want, e.w, "1e-9", "1e-12")>> >>, 1)]
    [] e.ev = "within" ->
       [st |-> s, v |-> FirstBad(<< <<"random initial speed in its interval", e.lo \preceq e.w /\ e.w \preceq e.hi>> >>, 1)]
    [] e.ev = "sys" -> [st |-> IF s.kind = "poly" THEN [f \in DOMAIN s \cup {"tau", "w", "torque"} |->
                                    IF f = "tau" THEN e.tau ELSE IF f = "w" THEN e.w ELSE IF f = "torque" THEN e.torque ELSE s[f]]
                               ELSE s,
                        v |-> FirstBad(SysClauses(s, e), 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
