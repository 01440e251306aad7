---------------------------- MODULE RewardTrace ----------------------------
(* Conformance of constraint monitoring (C11) and reward (C12).              *)
(*  setup: names, low, high, cons, merge, r (or "none"), referenced, range     *)
(*  look:  x, ref, given (degree of each function constraint, in order),        *)
(*         merged (degrees the user's merge function received), out (its result) *)
(*         total / rew / term as far as observed                                *)
EXTENDS TraceBase, Reward
CONSTANT What
Init0 == [cons |-> <<>>]
(* weights by name or by position *)
WeightVec(e) == CASE e.r.wkind = "none" -> Default(e.referenced)
                  [] e.r.wkind = "dict" -> [i \in DOMAIN e.names |-> IF \E k \in DOMAIN e.r.wn : e.r.wn[k] = e.names[i]
                                                                     THEN e.r.wv[CHOOSE k \in DOMAIN e.r.wn : e.r.wn[k] = e.names[i]] ELSE 0]
                  [] OTHER -> e.r.wv
PowerVec(e) == CASE e.r.pkind = "number" -> [i \in DOMAIN e.names |-> e.r.p]
                 [] e.r.pkind = "dict" -> [i \in DOMAIN e.names |-> IF \E k \in DOMAIN e.r.pn : e.r.pn[k] = e.names[i]
                                                                    THEN e.r.pv[CHOOSE k \in DOMAIN e.r.pn : e.r.pn[k] = e.names[i]] ELSE 0]
                 [] OTHER -> e.r.pv
NameIdx(e, ns) == [k \in DOMAIN ns |-> CHOOSE i \in DOMAIN e.names : e.names[i] = ns[k]]
Cons(e) == [k \in DOMAIN e.cons |-> LET c == e.cons[k] IN
             IF c.kind = "fn" THEN c
             ELSE [kind |-> c.kind, idx |-> IF c.all THEN [i \in DOMAIN e.names |-> i] ELSE NameIdx(e, c.names)]]
FnNo(cons, k) == Cardinality({j \in 1..k : cons[j].kind = "fn"})
Degrees(cons, e) == [k \in DOMAIN cons |-> Degree(cons[k], e.x, IF cons[k].kind = "fn" THEN e.given[FnNo(cons, k)] ELSE 0)]
(* as multisets *)
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : FEq(a[j], a[i])}) = Cardinality({j \in DOMAIN b : FEq(b[j], a[i])})
T9(a, b) == FClose(a, b, "1e-9", "1e-9")
Clauses11(s, e) ==
  LET d == Degrees(s.cons, e)
      tot == IF d = <<>> THEN 0 ELSE IF s.merge = "user" THEN e.out ELSE Merge(s.merge, d) IN
  << <<"every function constraint is asked once", Len(e.given) = Cardinality({k \in DOMAIN s.cons : s.cons[k].kind = "fn"})>>,
     <<"the user's merge function gets all degrees", s.merge # "user" \/ d = <<>> \/ SameBag(d, e.merged)>>,
     <<"total violation degree", ~Has(e, "total") \/ T9(e.total, tot)>>,
     <<"termination", ~Has(e, "term") \/ (e.term <=> (1 \preceq tot))>>,
     <<"violation part of the reward", ~Has(e, "vrew") \/ T9(e.vrew, tot)>> >>
Clauses12(s, e) ==
  LET d == Degrees(s.cons, e)
      tot == IF d = <<>> THEN 0 ELSE IF s.merge = "user" THEN e.out ELSE Merge(s.merge, d)
      inside == \A i \in DOMAIN e.x : FEq(s.r.w[i], 0) \/ ((s.low[i] \preceq e.x[i]) /\ (e.x[i] \preceq s.high[i]) /\ (s.low[i] \preceq e.ref[i]) /\ (e.ref[i] \preceq s.high[i])) IN
  << <<"reward", FClose(e.rew, Total(s.r, s.len, e.x, e.ref, tot), "1e-8", "1e-9")>>,
     <<"reward range", ~(FEq(tot, 0) /\ inside) \/ (((s.range[1] -- "1e-9") \preceq e.rew) /\ (e.rew \preceq (s.range[2] ++ "1e-9")))>> >>
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "setup" ->
         LET base == [cons |-> Cons(e), merge |-> e.merge, low |-> e.low, high |-> e.high, len |-> [i \in DOMAIN e.low |-> e.high[i] -- e.low[i]]] IN
         IF What = "C11" THEN OK(base)
         ELSE LET r == [w |-> Eager(WeightVec(e)), normed |-> e.r.normed, power |-> PowerVec(e), bias |-> e.r.bias, gamma |-> e.r.gamma, viol |-> e.r.viol] IN
              [st |-> [base EXCEPT !.cons = @] @@ [r |-> r, range |-> e.range],
               v |-> FirstBad(<< <<"reported reward range", T9(e.range[1], RangeLow(r)) /\ T9(e.range[2], RangeHigh(r))>> >>, 1)]
    [] OTHER -> [st |-> s, v |-> FirstBad(IF What = "C11" THEN Clauses11(s, e) ELSE Clauses12(s, e), 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
