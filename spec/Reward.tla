------------------------------- MODULE Reward -------------------------------
(* Constraint monitoring (C11) and the weighted-sum-of-errors reward (C12).    *)
(* constraint: [kind |-> "limit" | "squared", idx |-> <<positions>>] | "fn"     *)
(* reward r:   [w, normed, power, bias ("positive" or a number), gamma, viol     *)
(*             ("none" or a number)], w the weights in the order of the states   *)
EXTENDS Flt, FiniteSets
Degree(c, x, given) ==
  CASE c.kind = "limit" -> IF \E i \in DOMAIN c.idx : 1 \prec FAbs(x[c.idx[i]]) THEN 1 ELSE 0
    [] c.kind = "squared" -> IF 1 \prec FSum([i \in DOMAIN c.idx |-> Sq(x[c.idx[i]])]) THEN 1 ELSE 0
    [] OTHER -> given
RECURSIVE MaxUp(_, _)
MaxUp(d, i) == IF i = 1 THEN d[1] ELSE FMax(d[i], MaxUp(d, i - 1))
RECURSIVE Complement(_, _)
Complement(d, i) == IF i = 0 THEN 1 ELSE (1 -- d[i]) ** Complement(d, i - 1)
Merge(kind, d) == IF d = <<>> THEN 0 ELSE IF kind = "max" THEN MaxUp(d, Len(d)) ELSE 1 -- Complement(d, Len(d))
(* ---- reward ------------------------------------------------------------------ *)
WSum(w) == FSum(w)
Weights(r) == IF r.normed THEN [i \in DOMAIN r.w |-> r.w[i] // WSum(r.w)] ELSE r.w
Bias(r) == IF r.bias = "positive" THEN (IF r.normed THEN 1 ELSE WSum(r.w)) ELSE r.bias
RangeLow(r) == Bias(r) -- (IF r.normed THEN 1 ELSE WSum(r.w))
RangeHigh(r) == Bias(r)
Violation(r) == IF r.viol = "none" THEN FMin(RangeLow(r) // (1 -- r.gamma), 0) ELSE r.viol
(* states whose space has a negative part have length 2, the others length 1 *)
Wse(r, len, x, ref) ==
  LET w == Weights(r) IN
  Bias(r) -- FSum([i \in DOMAIN w |-> IF FEq(w[i], 0) THEN 0 ELSE w[i] ** FPow(FAbs(x[i] -- ref[i]) // len[i], r.power[i])])
Total(r, len, x, ref, d) == ((1 -- d) ** Wse(r, len, x, ref)) ++ (d ** Violation(r))
(* default weights: equal shares over the referenced states, over all if there are none *)
Default(referenced) ==
  LET n == Cardinality({i \in DOMAIN referenced : referenced[i]}) IN
  [i \in DOMAIN referenced |-> IF n = 0 THEN 1 // Len(referenced) ELSE IF referenced[i] THEN 1 // n ELSE 0]
=============================================================================
