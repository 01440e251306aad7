---------------------------- MODULE MotorTrace ----------------------------
(* Trace specification of C16.  "motor": a machine is created with user     *)
(* parameters; "eval": its public functions at one operating point.         *)
EXTENDS TraceBase, Motors, Defaults
Init0 == [type |-> "none", mp |-> <<>>]
Override(d, user) == [f \in DOMAIN d |-> IF f \in DOMAIN user THEN user[f] ELSE d[f]]
T7(a, b) == FClose(a, b, "1e-7", "1e-6")
V7(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : T7(u[i], v[i])
MaxAbs(v) == LET RECURSIVE m(_)
                 m(i) == IF i = 0 THEN 0 ELSE FMax(m(i - 1), FAbs(v[i]))
             IN m(Len(v))
(* derivatives by differences: tolerance relative to the values subtracted *)
VJ(u, v, scale) == Len(u) = Len(v) /\ \A i \in DOMAIN u : FClose(u[i], v[i], "1e-7", "1e-6" ++ "1e-12" ** scale)
EvalClauses(s, e) ==
  LET f == Ode(s.type, s.mp, e.x, e.u, e.w)
      sc == MaxAbs(f)
      tr == Torque(s.type, s.mp, e.x)
  IN << <<"state derivative = machine equations", V7(f, e.f)>>,
        <<"torque = torque equation", T7(tr, e.torque)>>,
        <<"input current of the machine", V7(InCurrent(s.type, e.x), e.iin)>>,
        <<"Jacobian reported", Has(e, "ja")>>,
        <<"d(derivative)/d(state)", LET J == OdeDx(s.type, s.mp, e.x, e.u, e.w) IN
               Len(e.ja) = Len(J) /\ \A i \in DOMAIN J : VJ(J[i], e.ja[i], sc)>>,
        <<"d(derivative)/d(speed)", VJ(OdeDw(s.type, s.mp, e.x, e.u, e.w), e.jw, sc)>>,
        <<"d(torque)/d(state)", VJ(TorqueDx(s.type, s.mp, e.x), e.jt, tr)>> >>
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "motor" ->
         LET mp == Override(MotorParameterDefaults[e.type], e.user) IN
         [st |-> [type |-> e.type, mp |-> mp],
          v |-> FirstBad(<< <<"user parameters replace exactly the named defaults",
                              \A k \in DOMAIN mp : Has(e.mp, k) /\ Near(e.mp[k], mp[k])>> >>, 1)]
    [] e.ev = "unknown" -> [st |-> s, v |-> FirstBad(<< <<"an unknown parameter name is refused", e.raised>> >>, 1)]
    [] e.ev = "eval" -> [st |-> s, v |-> FirstBad(EvalClauses(s, e), 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
