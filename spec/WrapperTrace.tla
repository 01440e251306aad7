---------------------------- MODULE WrapperTrace ----------------------------
(* Conformance of wrapper stacks (C10).                                       *)
(*  stack:  base (layout), ws (wrappers), seen (layout of each wrapper, with   *)
(*          pos: position of every name), tau                                   *)
(*  reset / step: levels (state vectors, innermost first; <<>> if not observed) *)
EXTENDS TraceBase, Wrappers
Init0 == [ls |-> <<>>]
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FClose(a[i], b[i], "1e-9", "1e-9")
(* angles at the cut may come out on either side *)
SameState(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \/ FClose(a[i], b[i], "1e-7", "1e-9")
                                                         \/ (FClose(FAbs(a[i]), 1, "1e-9", 0) /\ FClose(a[i] ++ b[i], 0, 0, "1e-9"))
RECURSIVE Layouts(_, _)
Layouts(ws, ls) == IF ws = <<>> THEN ls ELSE Layouts(Tail(ws), Append(ls, Layout(Head(ws), Last1(ls))))
LayoutClauses(w, want, got) ==
  << <<"state names", got.names = want.names>>,
     <<"positions of the names", Len(got.pos) = Len(want.names) /\ \A i \in DOMAIN got.pos : got.pos[i] = i>>,
     <<"only the system's own states have positions", got.npos = Len(got.names)>>,
     <<"limits", SameSeq(got.limits, want.limits)>>, <<"nominal values", SameSeq(got.nominal, want.nominal)>> >>
SpaceClauses(w, want, got) ==
  << <<"state space of the flux observer is not normalised",
        LET n == Len(want.names)  f == want.limits[n - 1] IN
        ~(w.kind = "flux" /\ SameSeq(got.high, [want.high EXCEPT ![n - 1] = f, ![n] = Pi]) /\ SameSeq(got.low, [want.low EXCEPT ![n - 1] = FNeg(f), ![n] = FNeg(Pi)]))>>,
     <<"state space", SameSeq(got.low, want.low) /\ SameSeq(got.high, want.high)>> >>
(* the state space entries of a wrapped system are taken from its inner system *)
InnerSpace(s, e, k) == IF k = 1 THEN e.base ELSE e.seen[k - 1]
SpaceWant(s, e, k) == LET L == Layout(e.ws[k], [s.ls[k] EXCEPT !.low = InnerSpace(s, e, k).low, !.high = InnerSpace(s, e, k).high]) IN L
RECURSIVE FirstBadOf(_, _)
FirstBadOf(vs, i) == IF i > Len(vs) THEN "ok" ELSE IF vs[i] # "ok" THEN vs[i] ELSE FirstBadOf(vs, i + 1)
(* values along the stack; memory: flux per wrapper *)
RECURSIVE Walk(_, _, _, _, _)
Walk(s, e, k, x, psis) ==
  IF k > Len(s.ws) THEN [v |-> "ok", psis |-> psis]
  ELSE LET w == s.ws[k]  L == s.ls[k]
           psi == IF w.kind # "flux" THEN Flux0 ELSE IF e.ev = "reset" THEN Flux0 ELSE NewFlux(w, L, x, psis[k], s.tau)
           got == e.levels[k + 1]
           want == Eager(Value(w, L, x, psi))
           sel == IF w.kind = "noise" THEN {Index(L.names, w.states[i]) : i \in DOMAIN w.states} ELSE {}
           ok == IF got = <<>> THEN TRUE
                 ELSE IF w.kind = "noise"
                 THEN Len(got) = Len(x) /\ \A i \in DOMAIN x : IF i \in sel THEN (w.lo \preceq ((got[i] -- x[i]) ++ "1e-12")) /\ ((got[i] -- x[i]) \preceq (w.hi ++ "1e-12"))
                                                              ELSE FEq(got[i], x[i])
                 ELSE SameState(got, want)
       IN IF ~ok THEN [v |-> "values of a wrapped state (" \o w.kind \o IF e.ev = "reset" THEN ", reset)" ELSE ")", psis |-> psis]
          ELSE Walk(s, e, k + 1, IF got = <<>> THEN want ELSE got, [psis EXCEPT ![k] = psi])
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "stack" ->
         LET ls == Layouts(e.ws, <<e.base>>)
             n == [ls |-> ls, ws |-> e.ws, tau |-> e.tau, psis |-> [k \in DOMAIN e.ws |-> Flux0]]
             vs == [k \in DOMAIN e.ws |-> FirstBad(LayoutClauses(e.ws[k], ls[k + 1], e.seen[k]), 1)]
             sp == [k \in DOMAIN e.ws |-> FirstBad(SpaceClauses(e.ws[k], SpaceWant(n, e, k), e.seen[k]), 1)]
             bs == FirstBad(<< <<"positions of the inner system stay its own", e.base.npos = Len(e.base.names) /\ \A i \in DOMAIN e.base.pos : e.base.pos[i] = i>> >>, 1)
         IN [st |-> n, v |-> FirstBadOf(<<bs>> \o vs, 1), note |-> FirstBadOf(sp, 1)]
    [] e.ev = "fresh" -> [st |-> s, v |-> FirstBad(<< <<"noise is drawn for every step and state", \A i, j \in DOMAIN e.d : i = j \/ e.d[i] # e.d[j]>> >>, 1)]
    [] e.ev = "actions" -> [st |-> s, v |-> FirstBad(<< <<"action space", e.want = e.got>> >>, 1)]
    [] OTHER ->
         LET r == Walk(s, e, 1, e.levels[1], s.psis) IN
         [st |-> [s EXCEPT !.psis = r.psis], v |-> IF Len(e.levels[1]) # Len(s.ls[1].names) THEN "length of the inner state" ELSE r.v]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
