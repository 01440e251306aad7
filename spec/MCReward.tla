------------------------------ MODULE MCReward ------------------------------
(* Design check of constraints and reward: all small settings, states, degrees. *)
EXTENDS Reward, TLC
CONSTANTS Vals, Refs, Weight, Powers, Biases, Viols, Degs
VARIABLES ready, r, x, ref, ds, ret, n
vars == <<ready, r, x, ref, ds, ret, n>>
SmallVals == {"-1.0", "0.25", "1.0"}
SmallRefs == {"-1.0", "0.0", "1.0"}
SmallWeight == {"0.0", "0.5", "2.0"}
SmallPowers == {"0.5", "1.0", "2.0"}
SmallBiases == {"positive", "0.0", "-0.5"}
SmallViols == {"none", "-3.0"}
SmallDegs == {"0.0", "0.4", "1.0"}
Len2 == <<"2.0", "1.0">>
(* settings of the second state: a state that cannot be negative *)
NonNeg == {v \in Vals : 0 \preceq v}
NonNegR == {v \in Refs : 0 \preceq v}
R0 == [w |-> <<"1.0", "0.0">>, normed |-> FALSE, power |-> <<"1.0", "1.0">>, bias |-> "0.0", gamma |-> "0.5", viol |-> "none"]
Init == ready = FALSE /\ r = R0 /\ x = <<"0.0", "0.0">> /\ ref = <<"0.0", "0.0">> /\ ds = <<"0.0">> /\ ret = "0.0" /\ n = 0
Choose == /\ ~ready /\ ready' = TRUE
          /\ \E a, b \in Weight, nm \in BOOLEAN, p \in Powers, bi \in Biases, v \in Viols :
               /\ 0 \prec (a ++ b)
               /\ r' = [w |-> <<a, b>>, normed |-> nm, power |-> <<p, "1.0">>, bias |-> bi, gamma |-> "0.5", viol |-> v]
          /\ UNCHANGED <<x, ref, ds, ret, n>>
Look == /\ ready /\ n < 1 /\ n' = n + 1
        /\ \E a \in Vals, b \in NonNeg, c \in Refs, d \in NonNegR, e, f \in Degs :
             /\ x' = <<a, b>> /\ ref' = <<c, d>> /\ ds' = <<e, f>>
        /\ ret' = (r.gamma ** ret) ++ Wse(r, Len2, x', ref') /\ UNCHANGED <<ready, r>>
Next == Choose \/ Look
Spec == Init /\ [][Next]_vars
E9 == "1e-9"
W == Wse(r, Len2, x, ref)
InRange == n > 0 => ((RangeLow(r) -- E9) \preceq W) /\ (W \preceq (RangeHigh(r) ++ E9))
Positive == (n > 0 /\ r.bias = "positive") => ("-1e-9" \preceq W)
(* the default violation reward is no better than the discounted worst case, for ever *)
Worst == (r.viol = "none") => (Violation(r) \preceq ((RangeLow(r) // (1 -- r.gamma)) ++ E9)) \/ ~(RangeLow(r) \prec 0)
Blend == n > 0 => LET d == Merge("max", ds) t == Total(r, Len2, x, ref, d) IN
   /\ ((FMin(W, Violation(r)) -- E9) \preceq t) /\ (t \preceq (FMax(W, Violation(r)) ++ E9))
   /\ (FEq(d, 0) => FClose(t, W, E9, E9)) /\ (FEq(d, 1) => FClose(t, Violation(r), E9, E9))
(* merging: full violation of one constraint is a full violation, none is none, product at least the maximum *)
Merging == LET a == Merge("max", ds)  b == Merge("product", ds) IN
   /\ (a \preceq (b ++ E9)) /\ (b \preceq 1) /\ (FEq(a, 0) <=> FEq(b, 0)) /\ ((\E i \in DOMAIN ds : FEq(ds[i], 1)) => FEq(a, 1) /\ FEq(b, 1))
(* a state that leaves its limit also violates the squared constraint *)
Stronger == \A k \in {"0.5", "1.5"} : LET y == <<x[1] ** k, x[2]>> IN
   Degree([kind |-> "limit", idx |-> <<1>>], y, 0) <= Degree([kind |-> "squared", idx |-> <<1, 2>>], y, 0)
=============================================================================
