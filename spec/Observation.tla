----------------------------- MODULE Observation -----------------------------
(* What an environment shows (C15).  A system's layout is                      *)
(*   [names, limits, nominal, low, high]  (sequences of one length);            *)
(* a filter is a sequence of state names (empty: everything, in order).         *)
EXTENDS Integers, Sequences
Where(names, n) == CHOOSE i \in DOMAIN names : names[i] = n
Filter(names, f) == IF f = <<>> THEN [i \in DOMAIN names |-> i] ELSE [k \in DOMAIN f |-> Where(names, f[k])]
Select(x, is) == [k \in DOMAIN is |-> x[is[k]]]
(* layout of what is shown *)
Shown(L, f) == LET is == Filter(L.names, f) IN
  [names |-> Select(L.names, is), limits |-> Select(L.limits, is), nominal |-> Select(L.nominal, is),
   low |-> Select(L.low, is), high |-> Select(L.high, is)]
(* ---- the reference pipeline: a generator holds the value announced for the   *)
(* next step; a reward takes the announced value, then a new one is announced    *)
GenFresh(first) == [now |-> first, next |-> first]
Announce(g, r) == [g EXCEPT !.next = r]
Take(g) == [g EXCEPT !.now = g.next]
=============================================================================
