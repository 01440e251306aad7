----------------------------- MODULE LimitTrace -----------------------------
(* Conformance of C23: "limits" lists limits, nominal values and state space of an environment by name;       *)
(* "state" a state vector with the solver's physical state, whose entries are normalised by these limits.       *)
EXTENDS TraceBase, Limits
Init0 == [g |-> <<>>, names |-> <<>>]
Tol == "1e-9"
Cl(v, w) == FClose(v, w, Tol, "1e-12")
Step(st0, e) ==
  CASE e.ev = "exc" -> BAD(st0, "unexpected exception: " \o e.msg)
    [] e.ev = "limits" ->
       LET n == Len(e.names)  g == e.g IN
       [st |-> [g |-> g, names |-> e.names],
        v |-> FirstBad(<< <<"one limit, nominal value and bound per state", Len(e.limits) = n /\ Len(e.nominal) = n /\ Len(e.low) = n /\ Len(e.high) = n>> >>
          \o [k \in 1..n |-> <<"positive limit of " \o e.names[k], 0 \prec e.limits[k]>>]
          \o [k \in 1..n |-> <<"nominal value not above the limit of " \o e.names[k], 0 \prec e.nominal[k] /\ e.nominal[k] \preceq e.limits[k]>>]
          \o [k \in 1..n |-> <<"limit of " \o e.names[k], Cl(e.limits[k], LimitOf(g, e.names[k]))>>]
          \o [k \in 1..n |-> <<"nominal value of " \o e.names[k], Cl(e.nominal[k], NominalOf(g, e.names[k]))>>]
          \o [k \in 1..n |-> <<"lower bound of the space of " \o e.names[k], Cl(e.low[k], LowOf(g, e.names[k]))>>]
          \o [k \in 1..n |-> <<"upper bound of the space of " \o e.names[k], Cl(e.high[k], HighOf(g, e.names[k]))>>], 1)]
    [] e.ev = "plain" ->
       LET n == Len(e.names) IN
       [st |-> st0,
        v |-> FirstBad(<< <<"one limit, nominal value and bound per state", Len(e.limits) = n /\ Len(e.nominal) = n /\ Len(e.low) = n /\ Len(e.high) = n>> >>
          \o [k \in 1..n |-> <<"positive limit of " \o e.names[k], 0 \prec e.limits[k]>>]
          \o [k \in 1..n |-> <<"nominal value not above the limit of " \o e.names[k], 0 \prec e.nominal[k] /\ e.nominal[k] \preceq e.limits[k]>>], 1)]
    [] e.ev = "state" ->
       [st |-> st0,
        v |-> FirstBad([k \in DOMAIN e.phys |->
          <<"normalised " \o e.phys[k][1] \o " is the physical value over its limit",
            LET j == CHOOSE m \in DOMAIN st0.names : st0.names[m] = e.phys[k][1]  l == LimitOf(st0.g, e.phys[k][1]) IN
            IF e.phys[k][1] = "epsilon" THEN FAbs(FSin(Half(e.phys[k][2] -- (e.state[j] ** l)))) \preceq "1e-7"
            ELSE FClose(e.state[j] ** l, e.phys[k][2], "1e-7", "1e-9")>>], 1)]
    [] e.ev = "refused" -> [st |-> st0, v |-> FirstBad(<< <<"an unknown quantity is refused, not ignored", e.unknown>> >>, 1)]
    [] e.ev = "accepted" -> BAD(st0, "an unknown quantity is refused, not ignored")
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
