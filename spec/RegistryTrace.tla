----------------------------- MODULE RegistryTrace -----------------------------
(* Conformance of registered environments (C22).                                *)
(*  built   what a default environment of id = <<ctrl, task, motor>> shows         *)
(*  twin    what an environment made with overrides shows (a) and what an          *)
(*          environment assembled from the resolved row shows (b)                  *)
(*  given   an override object and whether the environment uses it                  *)
(*  refuse  a class or key string as override                                       *)
(*  intact  the dictionaries passed as overrides afterwards                          *)
EXTENDS TraceBase, Registry
Init0 == 0
Row1(e) == Row(e.id[1], e.id[2], e.id[3])
Pos(ns, n) == CHOOSE i \in DOMAIN ns : ns[i] = n
(* degree of the default constraints for a state in which the listed states have value v *)
Deg(cons, probe) == IF \E i \in DOMAIN cons :
     LET k == cons[i]  m == {n \in {k.names[j] : j \in DOMAIN k.names} : \E p \in DOMAIN probe.names : probe.names[p] = n} IN
     IF k.kind = "limit" THEN m # {} /\ FLt(1, FAbs(probe.v)) ELSE FLt(1, Cardinality(m) ** Sq(probe.v))
  THEN 1 ELSE 0
WantReward(e, r, p) == LET w == Weights(e.id[2], e.id[3]) IN
  IF p.name \in DOMAIN w THEN FNeg((w[p.name] ** "0.5") // p.len) ELSE 0
Built(e) ==
  LET r == Row1(e) IN
  << <<"motor of the id", \E i \in DOMAIN e.motor : e.motor[i] = r.motor.cls>>,
     <<"action space of the control set", IF r.cont THEN e.aspace.kind = "box" /\ e.aspace.n = <<r.duties>>
                                          ELSE e.aspace.kind = "finite" /\ e.aspace.n = r.switches>>,
     <<"referenced quantities", e.refs = r.referenced>>,
     <<"sampling time", FEq(e.tau, r.tau)>>,
     <<"reward weights", \A i \in DOMAIN e.probes : FClose(e.probes[i].rew, WantReward(e, r, e.probes[i]), "1e-9", "1e-12")>>,
     <<"monitored constraints", \A i \in DOMAIN e.cons : FEq(e.cons[i].deg, Deg(r.constraints, e.cons[i]))>>,
     <<"current sum of shunt motors", r.currentsum = (\E i \in DOMAIN e.names : e.names[i] = "i_sum")>>,
     <<"a dashboard is the default visualization", e.dashboard>> >>
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "built" -> [st |-> s, v |-> FirstBad(Built(e), 1)]
    [] e.ev = "twin" -> [st |-> s, v |-> FirstBad(<<
          <<"spaces", e.a.spaces = e.b.spaces>>, <<"names", e.a.names = e.b.names>>, <<"limits", e.a.limits = e.b.limits>>,
          <<"nominal values", e.a.nominal = e.b.nominal>>, <<"reward range", e.a.range = e.b.range>>, <<"sampling time of the system", e.a.tau = e.b.tau>>,
          <<"visualizations", e.a.vis = e.b.vis>>, <<"Jacobian handed to the solver", e.a.jacobian = e.b.jacobian>>,
          <<"default components and parameters: trajectory", e.a.traj = e.b.traj>> >>, 1)]
    [] e.ev = "given" -> IF e.same THEN OK(s) ELSE BAD(s, "an object given as override is not used: " \o e.slot)
    [] e.ev = "refuse" -> IF e.refused THEN OK(s) ELSE BAD(s, "an override that is a " \o e.form \o " is not refused: " \o e.slot)
    [] e.ev = "intact" -> IF e.same THEN OK(s) ELSE BAD(s, "dictionaries given as override are altered")
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
