------------------------------ MODULE ScmlTrace ------------------------------
(* Trace specification of C24 (used by C05, C06, C21 too).                    *)
(*  "system": configuration; "reset": y0 (configured ODE state), state         *)
(*  "step": action, state, k, t                                                *)
EXTENDS TraceBase, Scml, Initial
Init0 == [c |-> <<>>, s |-> [amb |-> FALSE]]
Tol == "1e-7"
Off1(s) == s.amb
(* limits of the observed vector; angles are compared on the circle *)
EntryOk(c, lim, name, want, got) ==
  IF name = "epsilon" THEN AngleDist(want, got ** lim) \preceq "1e-6" /\ FAbs(got) \preceq "1.000000001"
  ELSE FClose(want // lim, got, Tol, Tol)
StateClauses(c, s, e, lims) ==
  LET r == Eager(Report(c, s))  nm == Names(c) IN
  << <<"length of the state", Len(e.state) = Len(nm)>> >>
  \o [k \in 1..Len(nm) |-> <<"state entry " \o nm[k], Len(e.state) = Len(nm) /\ EntryOk(c, lims[k], nm[k], r[k], e.state[k])>>]
(* observation, reward, termination and reference refer to the state of this very step;                         *)
(* the driver's reference generator answers with state entry 2, its reward is entry 1 plus twice the reference   *)
InstantClauses(e) ==
  IF ~Has(e, "obs") THEN <<>>
  ELSE << <<"the observation is the state reached", e.obs = e.full>>,
          <<"the reward refers to the state reached", (~Has(e, "rew")) \/ FClose(e.rew, e.full[1] ++ (2 ** e.full[2]), "1e-12", "1e-12")>>,
          <<"the reference observation refers to the state reached", (~Has(e, "ref")) \/ (Len(e.ref) = 1 /\ FEq(e.ref[1], e.full[2]))>>,
          <<"termination refers to the state reached", e.term = (\E k \in DOMAIN e.monitored : 1 \prec FAbs(e.full[e.monitored[k]]))>> >>
(* the converter is asked with the currents of the begin of every section of the step *)
SectionClauses(s, e) ==
  IF ~Has(e, "asked") THEN <<>>
  ELSE [j \in DOMAIN s.is |-> <<"currents the converter sees in section " \o ToString(j),
          \E m \in DOMAIN e.asked : Len(e.asked[m]) = Len(s.is[j]) /\ \A q \in DOMAIN s.is[j] : FClose(s.is[j][q], e.asked[m][q], "1e-6", "1e-6")>>]
(* ---- C21: e.sol is the solver's state after the reset; head.init describes what was configured -------------- *)
InitClauses(h, sol, hist) ==
  [k \in 1..Len(h.order) |->
    LET n == h.order[k]  i == IF n = "omega" THEN h.load ELSE h.motor IN
    <<"initial value of " \o n \o (IF i.mode = "const" THEN " is the one configured for it" ELSE " lies in its configured interval and limits"),
      Len(sol) = Len(h.order) /\ MayStart(sol[k], i, n, h.nominal[k], h.low[k])>>]
  \o [k \in 1..Len(h.order) |->
    LET n == h.order[k]  i == IF n = "omega" THEN h.load ELSE h.motor IN
    <<"random initial value of " \o n \o " is drawn anew for every episode",
      i.mode = "const" \/ Len(hist) = 0 \/ (Upper(i.rows, n, h.nominal[k]) -- Lower(i.rows, n, h.nominal[k], h.low[k])) \preceq "1e-9" \/ h.degenerate[k]
      \/ ~FEq(sol[k], hist[Len(hist)][k])>>]
  \o [k \in 1..Len(h.order) |->
    LET n == h.order[k]  i == IF n = "omega" THEN h.load ELSE h.motor IN
    <<"initial value of " \o n \o " is drawn around the configured mean",
      h.degenerate[k] \/ AroundCentre(sol[k], i, n, h.nominal[k], h.low[k])>>]
(* over many episodes a uniform initial state reaches both outer quarters of its interval *)
SpreadClauses(h, hist) ==
  [k \in 1..Len(h.order) |->
    LET n == h.order[k]  i == IF n = "omega" THEN h.load ELSE h.motor
        lo == Lower(i.rows, n, h.nominal[k], h.low[k])  up == Upper(i.rows, n, h.nominal[k])  w == up -- lo IN
    <<"uniform initial values of " \o n \o " reach both ends of their interval",
      i.mode # "uniform" \/ h.degenerate[k] \/ ~(0 \prec w)
      \/ ((\E m \in DOMAIN hist : hist[m][k] \prec (lo ++ ("0.25" ** w))) /\ (\E m \in DOMAIN hist : (up -- ("0.25" ** w)) \prec hist[m][k]))>>]
Cat(units, Op(_)) == Flatten([n \in DOMAIN units |-> Op(units[n].type)])
ActionSpaceOk(e) ==
  LET u == e.c.units IN
  IF IsFinite(u) THEN e.nact = [n \in DOMAIN u |-> NActions(u[n].type)]
  ELSE IF e.c.cs = "dq" THEN /\ e.nact = <<>> /\ NearV(<<-1, -1>>, e.alow) /\ NearV(<<1, 1>>, e.ahigh)
  ELSE e.nact = <<>> /\ NearV(Cat(u, ALow), e.alow) /\ NearV(Cat(u, AHigh), e.ahigh)
Step(st0, e) ==
  CASE e.ev = "exc" -> BAD(st0, "unexpected exception: " \o e.msg)
    [] e.ev = "system" ->
       [st |-> [c |-> e.c, s |-> [amb |-> FALSE], lims |-> e.limits, init |-> IF Has(e, "init") THEN e.init ELSE <<>>, hist |-> <<>>],
        v |-> FirstBad(<< <<"state names and their order", e.names = Names(e.c)>>,
                          <<"action space of the converter or of the dq control space", ActionSpaceOk(e)>>,
                          <<"one limit per state", Len(e.limits) = Len(e.names)>> >>, 1)]
    [] e.ev = "reset" ->
       LET us == Last1(e.state) ** Last1(st0.lims)
           c == IF e.phi = "none" THEN st0.c ELSE [st0.c EXCEPT !.sup.phi = e.phi]
           y0 == IF Has(e, "sol") THEN e.sol ELSE e.y0
           s == InitSys(c, y0, us)
           ic == IF Has(e, "sol") THEN InitClauses(st0.init, e.sol, st0.hist) ELSE <<>> IN
       [st |-> [st0 EXCEPT !.c = c, !.s = s, !.hist = IF Has(e, "sol") THEN Append(st0.hist, e.sol) ELSE st0.hist],
        v |-> FirstBad(ic \o StateClauses(c, s, e, st0.lims) \o
              << <<"step counter and time are zero after a reset", e.k = 0 /\ FEq(e.t, 0)>>,
                 <<"supply voltage after a reset", IF c.sup.kind = "ac1" THEN SupplyOk(c, s, <<>>, us) ELSE FClose(us, c.sup.u0, "1e-9", 0)>> >>, 1)]
    [] e.ev = "spread" -> [st |-> st0, v |-> FirstBad(SpreadClauses(st0.init, st0.hist), 1)]
    [] e.ev = "refused" -> [st |-> st0, v |-> FirstBad(<< <<"a start outside the nominal values is refused", TRUE>>,
          <<"only a start outside the nominal values is refused: " \o e.msg,
            \E k \in 1..Len(st0.init.order) : LET n == st0.init.order[k] IN
               ~Startable(IF n = "omega" THEN st0.init.load ELSE st0.init.motor, n, st0.init.nominal[k], st0.init.low[k])>> >>, 1)]
    [] e.ev = "step" ->
       LET us == Last1(e.state) ** Last1(st0.lims)
           s == IF st0.s.amb THEN st0.s ELSE StepSys(st0.c, st0.s, e.a, us) IN
       IF st0.s.amb \/ s.amb THEN [st |-> [st0 EXCEPT !.s = [amb |-> TRUE]], v |-> FirstBad(InstantClauses(e), 1)]
       ELSE [st |-> [st0 EXCEPT !.s = s],
             v |-> FirstBad(<< <<"supply voltage of this step", SupplyOk(st0.c, st0.s, e.a, us)>> >>
                   \o StateClauses(st0.c, s, e, st0.lims) \o InstantClauses(e) \o SectionClauses(s, e)
                   \o << <<"step counter", e.k = s.k>>, <<"simulation time is n tau", FClose(e.t, s.t, "1e-9", "1e-12")>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
