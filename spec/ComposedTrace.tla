---------------------------- MODULE ComposedTrace ----------------------------
(* Conformance of switched and multiple references (C14).  Every part is      *)
(* observed from outside: each call of the composed generator comes with the    *)
(* restarts and observations of its parts during this call.                      *)
EXTENDS TraceBase, Composed
Init0 == [cfg |-> <<>>, w |-> Started(1), ref |-> <<>>, lens |-> <<>>, choice |-> <<>>]
SameV(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : FClose(u[i], v[i], "1e-12", "1e-12")
SwSetup(e) ==
  << <<"names of the referenced states", \A i \in DOMAIN e.parts : e.refnames = e.parts[i].names>>,
     <<"mask of the referenced states", \A i \in DOMAIN e.parts : e.mask = e.parts[i].mask>>,
     <<"reference space contains the parts' spaces", \A k \in DOMAIN e.low :
          /\ \A i \in DOMAIN e.parts : (e.low[k] \preceq e.parts[i].low[k]) /\ (e.parts[i].high[k] \preceq e.high[k])
          /\ \E i \in DOMAIN e.parts : FEq(e.low[k], e.parts[i].low[k])
          /\ \E i \in DOMAIN e.parts : FEq(e.high[k], e.parts[i].high[k])>> >>
MuSetup(e) ==
  << <<"names in the order of the parts", e.refnames = Side([i \in DOMAIN e.parts |-> e.parts[i].names])>>,
     <<"mask of the referenced states", \A k \in DOMAIN e.mask : e.mask[k] <=> \E i \in DOMAIN e.parts : e.parts[i].mask[k]>>,
     <<"reference space in the order of the parts", SameV(e.low, Side([i \in DOMAIN e.parts |-> e.parts[i].low])) /\ SameV(e.high, Side([i \in DOMAIN e.parts |-> e.parts[i].high]))>> >>
(* ---------------------------------------------------------------- switched *)
SwCall(s, e) ==
  LET c == s.cfg  one == Len(e.calls) = 1
      k == e.calls[1]
      restart == one /\ k.op = "reset" IN
  CASE e.op = "reset" ->
         [st |-> IF one THEN [s EXCEPT !.w = Started(k.i), !.ref = <<>>, !.choice = Append(@, k.i)] ELSE s,
          v |-> FirstBad(<< <<"exactly one part is restarted at a reset", restart>>,
                            <<"the initial reference is handed to the part", restart => (k.given = e.given)>>,
                            <<"a part with probability zero is used", restart => (0 \prec c.p[k.i])>>,
                            <<"the reset answers with the active part's reference", restart => (SameV(e.ref, k.ref) /\ SameV(e.obs, k.obs))>> >>, 1)]
    [] e.op = "ref" ->
         [st |-> [s EXCEPT !.ref = e.ref],
          v |-> FirstBad(<< <<"asking for the reference moves no part", e.calls = <<>> >>,
                            <<"the reference is the active part's reference", SameV(e.ref, e.now[s.w.active])>> >>, 1)]
    [] e.op = "obs" ->
         [st |-> IF restart THEN [s EXCEPT !.w = Started(k.i), !.lens = Append(@, s.w.u), !.choice = Append(@, k.i)] ELSE [s EXCEPT !.w = Shown(@)],
          v |-> FirstBad(<< <<"exactly one part is asked", one>>,
                            <<"the active part is asked", one => (k.op = "reset" \/ k.i = s.w.active)>>,
                            <<"a super-episode lasts a number of steps from its range", one => (IF restart THEN MayRelieve(s.w.u, c.range) ELSE MayContinue(s.w.u, c.range))>>,
                            <<"the next part starts from the last reference", restart => SameV(k.given, s.ref)>>,
                            <<"a part with probability zero is used", restart => (0 \prec c.p[k.i])>>,
                            <<"the observation is the active part's observation", one => SameV(e.obs, k.obs)>> >>, 1)]
RECURSIVE MaxI(_, _), MinI(_, _)
MaxI(x, n) == IF n = 1 THEN x[1] ELSE LET y == MaxI(x, n - 1) IN IF y > x[n] THEN y ELSE x[n]
MinI(x, n) == IF n = 1 THEN x[1] ELSE LET y == MinI(x, n - 1) IN IF y < x[n] THEN y ELSE x[n]
(* relative frequency within seven standard deviations *)
Freq(s, i) == LET n == Len(s.choice)  k == Cardinality({j \in 1..n : s.choice[j] = i})  p == s.cfg.p[i] IN
  FAbs(k -- (n ** p)) \preceq (7 ** FSqrt((n ** p ** (1 -- p)) ++ "0.5"))
SwEnd(s) ==
  << <<"parts are chosen with the given probabilities", Len(s.choice) < 60 \/ \A i \in DOMAIN s.cfg.parts : Freq(s, i)>>,
     <<"lengths of the super-episodes cover their range", Len(s.lens) < 60 \/ 10 * (MaxI(s.lens, Len(s.lens)) - MinI(s.lens, Len(s.lens))) >= 6 * (s.cfg.range[2] - 1 - s.cfg.range[1])>> >>
(* ---------------------------------------------------------------- multiple *)
MuCall(s, e) ==
  LET n == Len(s.cfg.parts)
      each(op) == Len(e.calls) = n /\ \A i \in 1..n : Cardinality({j \in DOMAIN e.calls : e.calls[j].i = i /\ e.calls[j].op = op}) = 1
      the(i) == e.calls[CHOOSE j \in DOMAIN e.calls : e.calls[j].i = i]
      sum(f(_)) == [q \in DOMAIN s.cfg.mask |-> FSum([i \in 1..n |-> f(i)[q]])] IN
  [st |-> s, v |-> FirstBad(
    CASE e.op = "reset" ->
           << <<"every part is restarted once", each("reset")>>,
              <<"the initial reference is handed to the parts", each("reset") => \A i \in 1..n : the(i).given = e.given>>,
              <<"the reset answers with all parts' references", each("reset") => (SameV(e.ref, sum(LAMBDA i : the(i).ref)) /\ SameV(e.obs, Side([i \in 1..n |-> the(i).obs])))>> >>
      [] e.op = "ref" ->
           << <<"asking for the reference moves no part", e.calls = <<>> >>,
              <<"the reference holds all parts' references", SameV(e.ref, sum(LAMBDA i : e.now[i]))>> >>
      [] e.op = "obs" ->
           << <<"every part is asked once", each("obs")>>,
              <<"the observation holds all parts' observations in order", each("obs") => SameV(e.obs, Side([i \in 1..n |-> the(i).obs]))>> >>, 1)]
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "setup" -> [st |-> [s EXCEPT !.cfg = e], v |-> FirstBad(IF e.kind = "switched" THEN SwSetup(e) ELSE MuSetup(e), 1)]
    [] e.ev = "call" -> IF s.cfg.kind = "switched" THEN SwCall(s, e) ELSE MuCall(s, e)
    [] e.ev = "end" -> [st |-> s, v |-> FirstBad(IF s.cfg.kind = "switched" THEN SwEnd(s) ELSE <<>>, 1)]
    [] e.ev = "streams" -> IF e.equal THEN BAD(s, "two random parts produce the same references") ELSE OK(s)
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
