--------------------------- MODULE ConverterTrace ---------------------------
(* Trace specification of C07 and C08.                                       *)
EXTENDS TraceBase, Converters
Init0 == [units |-> <<>>, tau |-> 1, legs |-> <<>>, a |-> <<>>, t |-> 0]
Cat(units, Op(_)) == Flatten([n \in DOMAIN units |-> Op(units[n].type)])
V9(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : FClose(u[k], v[k], "1e-9", "1e-9")
Multi(e) == e.multi
SpaceClauses(e) ==
  << <<"current space", V9(Cat(e.units, ILow), e.ilow) /\ V9(Cat(e.units, UHigh), e.ihigh)>>,
     <<"voltage space", V9(Cat(e.units, ULow), e.ulow) /\ V9(Cat(e.units, UHigh), e.uhigh)>>,
     <<"action space", IF IsFinite(e.units) THEN e.nact = [n \in DOMAIN e.units |-> NActions(e.units[n].type)]
                       ELSE V9(Cat(e.units, ALow), e.alow) /\ V9(Cat(e.units, AHigh), e.ahigh)>> >>
Times(s, legs, t) == {t ++ til : til \in LockTils(s.units, legs)} \cup {t ++ s.tau}
TimesOk(s, legs, e) ==
  LET want == Times(s, legs, e.t) IN
  /\ \A w \in want : \E k \in DOMAIN e.times : FClose(w, e.times[k], "1e-9", "1e-12")
  /\ \A k \in DOMAIN e.times : \E w \in want : FClose(w, e.times[k], "1e-9", "1e-12")
  /\ \A k \in 1..(Len(e.times) - 1) : e.times[k] \prec e.times[k + 1]
ResetU(units) == Flatten([n \in DOMAIN units |-> IF NPorts(units[n].type) = 3 THEN <<"-0.5", "-0.5", "-0.5">> ELSE <<0>>])
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "converter" ->
       [st |-> [units |-> e.units, tau |-> e.tau, legs |-> IF IsFinite(e.units) THEN FinReset(e.units) ELSE <<>>, a |-> <<>>, t |-> 0],
        v |-> FirstBad(SpaceClauses(e) \o << <<"sampling time", FEq(e.tau, e.got_tau)>> >>, 1)]
    [] e.ev = "reset" ->
       [st |-> [s EXCEPT !.legs = IF IsFinite(s.units) THEN FinReset(s.units) ELSE <<>>, !.t = 0],
        v |-> FirstBad(<< <<"voltages after a reset", V9(ResetU(s.units), e.u)>> >>, 1)]
    [] e.ev = "refused" -> [st |-> s, v |-> FirstBad(<< <<"an action outside the action space is refused", e.raised>> >>, 1)]
    [] e.ev = "set" ->
       IF IsFinite(s.units)
       THEN LET legs == FinSet(s.units, s.legs, e.a, e.t) IN
            [st |-> [s EXCEPT !.legs = legs, !.t = e.t],
             v |-> FirstBad(<< <<"switching times: end of the interlocking interval and of the step", TimesOk(s, legs, e)>> >>, 1)]
       ELSE [st |-> [s EXCEPT !.a = e.a, !.t = e.t],
             v |-> FirstBad(<< <<"one interval per step", Len(e.times) = 1 /\ FClose(e.t ++ s.tau, e.times[1], "1e-9", "1e-12")>> >>, 1)]
    [] e.ev = "section" ->
       IF IsFinite(s.units)
       THEN LET ss == FinStates(s.units, s.legs, s.tau, e.t) IN
            [st |-> [s EXCEPT !.legs = FinConduct(s.units, s.legs, ss)],
             v |-> FirstBad(<< <<"output voltage of the switching table / interlocking interval", V9(FinU(s.units, ss, e.i), e.u)>>,
                               <<"supply current of the conducting switches", FClose(FinSup(s.units, ss, e.i), e.isup, "1e-9", "1e-9")>> >>, 1)]
       ELSE LET want == CoU(s.units, s.a, s.tau, e.i) IN
            [st |-> s,
             v |-> FirstBad(<< <<"mean voltage of the topology", V9(want, e.u) \/ V9(CoUKnown(s.units, s.a, s.tau, e.i), e.u)>> >>, 1),
             note |-> IF V9(want, e.u) THEN "ok" ELSE "interlocking loss of the continuous four-quadrant converter"]
    [] e.ev = "supply" ->
       [st |-> s, v |-> FirstBad(<< <<"duty-weighted supply current", FClose(CoSup(s.units, s.a, s.tau, e.i), e.isup, "1e-9", "1e-9")>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
