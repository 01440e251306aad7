----------------------------- MODULE MCWrappers -----------------------------
(* Design check: every stack (up to Depth) of wrappers on a small induction     *)
(* machine system keeps one layout; the observer converges to the magnetising   *)
(* flux and forgets it at a reset.  The stacks are replayed on the real code.    *)
EXTENDS Wrappers, Json
CONSTANTS Depth, Steps
VARIABLES stack, layouts, phase, n, psi, x
vars == <<stack, layouts, phase, n, psi, x>>
Base == [names |-> <<"omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "epsilon">>,
         limits |-> <<100, 5, 4, 4, 4, 4, 4, Pi>>, nominal |-> <<90, 4, 3, 3, 3, 3, 3, Pi>>, low |-> MinusOnes(8), high |-> Ones(8)]
Catalogue == { [kind |-> "cossin", angle |-> "epsilon", remove |-> FALSE], [kind |-> "cossin", angle |-> "epsilon", remove |-> TRUE],
               [kind |-> "cossin", angle |-> "psi_angle", remove |-> FALSE], [kind |-> "cossin", angle |-> "psi_angle", remove |-> TRUE],
               [kind |-> "sum", currents |-> <<"i_sa", "i_sb">>, limit |-> "sum"], [kind |-> "sum", currents |-> <<"i_sq", "i_sa", "i_sd">>, limit |-> "max"],
               [kind |-> "flux", currents |-> <<"i_sa", "i_sb", "i_sc">>, lm |-> "0.14", lr |-> "0.15", rr |-> "1.4", p |-> 2],
               [kind |-> "noise"], [kind |-> "dead"], [kind |-> "dq"] }
Ready(w, L) == LET have == {L.names[i] : i \in DOMAIN L.names}
                   add == IF w.kind = "cossin" THEN {"cos(" \o w.angle \o ")"} ELSE IF w.kind = "sum" THEN {"i_sum"} ELSE IF w.kind = "flux" THEN {"psi_abs"} ELSE {} IN
  add \cap have = {} /\ (w.kind = "cossin" => w.angle \in have) /\ (w.kind = "dq" => "epsilon" \in have /\ "psi_angle" \in have)
Kinds(s) == {s[i].kind : i \in DOMAIN s}
Init == stack = <<>> /\ layouts = <<Base>> /\ phase = "build" /\ n = 0 /\ psi = Flux0 /\ x = <<>>
Add == /\ phase = "build" /\ Len(stack) < Depth
       /\ \E w \in Catalogue : /\ Ready(w, Last1(layouts)) /\ (w.kind \in {"noise", "dead", "dq"} => w.kind \notin Kinds(stack))
                               /\ stack' = Append(stack, w) /\ layouts' = Append(layouts, Layout(w, Last1(layouts)))
       /\ UNCHANGED <<phase, n, psi, x>>
B0 == <<"0.5", "0.0", "0.25", "-0.125", "-0.125", "0.25", "0.0", "0.3">>
RECURSIVE States(_, _, _)
States(k, xs, ps) == IF k > Len(stack) THEN xs ELSE States(k + 1, Append(xs, Value(stack[k], layouts[k], Last1(xs), ps)), ps)
W(k) == stack[k]
FluxAt == {k \in DOMAIN stack : stack[k].kind = "flux"}
Start == phase = "build" /\ stack # <<>> /\ phase' = "run" /\ n' = 0 /\ psi' = Flux0 /\ x' = States(1, <<B0>>, Flux0) /\ UNCHANGED <<stack, layouts>>
(* constant currents at standstill of the observed frame, as seen by an observer in the innermost position *)
NextPsi == IF FluxAt = {} THEN psi ELSE LET k == CHOOSE k \in FluxAt : TRUE IN FluxStep(W(k), Clarke(<<1, "-0.5", "-0.5">>), 0, psi, "0.01")
Sim == /\ phase = "run" /\ n < Steps /\ n' = n + 1
       /\ psi' = NextPsi /\ x' = States(1, <<B0>>, psi') /\ UNCHANGED <<stack, layouts, phase>>
Reset == phase = "run" /\ n = Steps /\ psi' = Flux0 /\ n' = 0 /\ x' = States(1, <<B0>>, Flux0) /\ UNCHANGED <<stack, layouts, phase>>
Next == Add \/ Start \/ Sim \/ Reset
Spec == Init /\ [][Next]_vars
OneLength == \A i \in DOMAIN layouts : LET L == layouts[i] k == Len(L.names) IN Len(L.limits) = k /\ Len(L.nominal) = k /\ Len(L.low) = k /\ Len(L.high) = k
Distinct == \A i \in DOMAIN layouts : Cardinality({layouts[i].names[k] : k \in DOMAIN layouts[i].names}) = Len(layouts[i].names)
(* entries that were there before keep their limits, and their values *)
Kept == \A i \in 2..Len(layouts) : \A a \in DOMAIN layouts[i].names : \A b \in DOMAIN layouts[i - 1].names :
          layouts[i].names[a] = layouts[i - 1].names[b] => /\ layouts[i].limits[a] = layouts[i - 1].limits[b] /\ layouts[i].low[a] = layouts[i - 1].low[b]
                                                           /\ (phase = "run" => x[i][a] = x[i - 1][b])
Widths == phase = "run" => \A i \in DOMAIN x : Len(x[i]) = Len(layouts[i].names)
UnitCircle == phase = "run" => \A k \in DOMAIN stack : stack[k].kind = "cossin" =>
   LET m == Len(x[k + 1]) IN FClose(Sq(x[k + 1][m - 1]) ++ Sq(x[k + 1][m]), 1, "1e-9", "1e-9")
Bounded == FSqrt(Sq(psi[1]) ++ Sq(psi[2])) \preceq "0.1400001"
Forgets == (n = 0) => psi = Flux0
Emit == (phase = "build" /\ stack # <<>>) => PrintT("GEN|" \o ToJson(stack))
BuildOnly == phase = "build"
=============================================================================
