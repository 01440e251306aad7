---------------------------- MODULE SupplyTrace ----------------------------
(* Trace specification of C19.                                              *)
(*  "supply": construction; "reset": u = voltages returned; "get": t, i, u  *)
(*  "sysreset"/"sysstep": a simulated system whose supply logs its calls    *)
EXTENDS TraceBase, Supplies
Init0 == [kind |-> "none"]
Phi(s, u) == u
(* random phase of the episode: unknown until observed; identified from two values *)
Known(s) == Has(s, "phi")
Between(x, a, b, tol) == (FMin(a, b) -- tol) \preceq x /\ x \preceq (FMax(a, b) ++ tol)
RangeOf(e) == CASE e.kind = "ideal" -> <<e.u0, e.u0>>
                [] e.kind = "rc" -> <<0, e.u0>>
                [] OTHER -> <<FNeg(AcAmp(e.kind, e.u0)), AcAmp(e.kind, e.u0)>>
GetClauses(s, e) ==
  CASE s.kind = "ideal" -> << <<"ideal supply: nominal voltage at all times", Len(e.u) = 1 /\ Near(e.u[1], s.u0)>> >>
    [] s.kind = "rc" ->
         LET dt == e.t -- s.t  tol == "1e-9" ** s.u0
             x == RcExact(s, s.u, e.i, dt)  y == RcEuler(s, s.u, e.i, dt) IN
         << <<"RC supply follows its differential equation", Len(e.u) = 1 /\ Between(e.u[1], x, y, tol)>> >>
    [] OTHER -> << <<"AC supply: sinusoid at the current time",
                     LET v == AcU(s, s.phi, e.t) IN Len(e.u) = Len(v) /\ \A k \in DOMAIN v : FClose(v[k], e.u[k], "1e-6", "1e-6" ** s.u0)>> >>
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "supply" ->
       [st |-> [f \in (DOMAIN e \ {"ev"}) \cup {"phase0"} |-> IF f = "phase0" THEN (IF Has(e, "phi") THEN e.phi ELSE "unknown") ELSE e[f]],
        v |-> FirstBad(<< <<"nominal voltage reported", Near(e.nominal, e.u0)>>,
                          <<"supply range", Near(e.range[1], RangeOf(e)[1]) /\ Near(e.range[2], RangeOf(e)[2])>>,
                          <<"number of voltages", e.n = (IF e.kind = "ac3" THEN 3 ELSE 1)>> >>, 1)]
    [] e.ev = "reset" ->      \* e.phi: the phase identified by the driver from later samples of this episode
       [st |-> [f \in DOMAIN s \cup {"u", "t", "phi"} |->
                  IF f = "t" THEN 0 ELSE IF f = "u" THEN e.u[1] ELSE IF f = "phi" THEN Get(e, "phi", 0) ELSE s[f]],
        v |-> FirstBad(
          CASE s.kind \in {"ideal", "rc"} -> << <<"restarts fully charged / at nominal voltage", Len(e.u) = 1 /\ Near(e.u[1], s.u0)>> >>
            [] OTHER -> << <<"fixed phase kept, otherwise in [0, 2 pi)",
                             IF s.phase0 # "unknown" THEN FClose(s.phase0, e.phi, "1e-9", "1e-9")
                             ELSE "-1e-6" \preceq e.phi /\ e.phi \preceq (TwoPi ++ "1e-6")>>,
                           <<"AC supply starts at time 0", LET v == AcU(s, e.phi, 0) IN
                              Len(e.u) = Len(v) /\ \A k \in DOMAIN v : FClose(v[k], e.u[k], "1e-6", "1e-6" ** s.u0)>> >>, 1)]
    [] e.ev = "get" -> [st |-> IF s.kind = "rc" THEN [s EXCEPT !.u = e.u[1], !.t = e.t] ELSE s, v |-> FirstBad(GetClauses(s, e), 1)]
    [] e.ev = "fresh" ->      \* the phases of several episodes without a fixed phase
       [st |-> s, v |-> FirstBad(<< <<"a new phase is drawn for every episode",
                                      Cardinality({e.phis[k] : k \in DOMAIN e.phis}) = Len(e.phis)>> >>, 1)]
    [] e.ev = "sys" ->        \* u: what the supply returned last; state: u_sup entries of the state, physical; t: query time
       [st |-> s,
        v |-> FirstBad(<< <<"state reports the delivered supply voltage",
                            Len(e.state) = Len(e.u) /\ \A k \in DOMAIN e.u : FClose(e.u[k], e.state[k], "1e-9", "1e-9")>>,
                          <<"supply is asked at the current time",
                            \A k \in DOMAIN e.ts : FClose(e.ts[k], e.n ** e.tau, "1e-6", "1e-12")>>,
                          <<"supply is asked in every step", Len(e.ts) > 0>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
