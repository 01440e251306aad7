------------------------------ MODULE MCLimits ------------------------------
(* Design of C23: all machines, all sets of up to two user settings from a small pool, both converter classes. *)
EXTENDS Limits, TLC
CONSTANTS MaxSet
Quantities(t) == {"i", "u", "omega", "torque"} \cup (IF IsAc(t) THEN {IF t \in InductionTypes THEN "i_sa" ELSE "i_a", "u_sd"} ELSE {})
Factor == {"0.5", "1.25"}
Names1(t) == IF IsAc(t) THEN {"omega", "torque", "i_sd", "i_sq", "u_sd", "u_sq", "epsilon", "u_sup"} \cup (IF t \in InductionTypes THEN {"i_sa", "u_sa"} ELSE {"i_a", "u_a"})
             ELSE {"omega", "torque", "u_sup"} \cup (IF t \in {"PermExDc", "SeriesDc"} THEN {"i", "u"} ELSE {"i_a", "i_e"} \cup IF t = "ShuntDc" THEN {"u"} ELSE {"u_a", "u_e"})
Conv(t) == IF t = "EESM" THEN {<<[type |-> "FB6C"], [type |-> "F4QC"]>>} ELSE IF t = "DFIM" THEN {<<[type |-> "FB6C"], [type |-> "FB6C"]>>}
           ELSE IF IsAc(t) THEN {<<[type |-> "FB6C"]>>} ELSE IF t = "ExtExDc" THEN {<<[type |-> a], [type |-> b]>> : a, b \in {"C1QC", "F2QC", "C4QC"}}
           ELSE {<<[type |-> a]>> : a \in {"C1QC", "F2QC", "C4QC"}}
VARIABLES g, ready
Base(t) == [type |-> t, mp |-> MotorParameterDefaults[t], units |-> CHOOSE c \in Conv(t) : TRUE, ul |-> <<>>, un |-> <<>>, wl |-> "none", us |-> 100, slo |-> 100, shi |-> 100]
Init == g \in {Base(t) : t \in MotorTypes} /\ ready = 0
DefL(t, q) == IF q \in DOMAIN MotorLimitDefaults[t] THEN MotorLimitDefaults[t][q] ELSE 40
Set == /\ ready = 0
       /\ \/ \E q \in Quantities(g.type), f \in Factor : Len(g.ul) < MaxSet /\ ~Given(g.ul, q) /\ ~FEq(DefL(g.type, q), 0)
               /\ g' = [g EXCEPT !.ul = Append(g.ul, <<q, f ** DefL(g.type, q)>>)]
          \/ \E q \in Quantities(g.type) : Len(g.un) < 1 /\ Given(g.ul, q) /\ g' = [g EXCEPT !.un = Append(g.un, <<q, "0.75" ** ValOf(g.ul, q)>>)]
       /\ UNCHANGED ready
Fix == /\ ready = 0 /\ ready' = 1
       /\ \E c \in Conv(g.type), w \in {"none", "50.0"}, s \in {<<"100", "100">>, <<"-141", "141">>} : g' = [g EXCEPT !.units = c, !.wl = w, !.slo = s[1], !.shi = s[2]]
Next == Set \/ Fix
Spec == Init /\ [][Next]_<<g, ready>>
N == Names1(g.type)
Positive == ready = 1 => \A n \in N : 0 \prec LimitOf(g, n) /\ 0 \prec NominalOf(g, n)
NominalBelow == ready = 1 => \A n \in N : NominalOf(g, n) \preceq LimitOf(g, n)
UserKept == ready = 1 => /\ \A k \in DOMAIN g.ul : g.ul[k][1] \in (N \ {"omega"}) => FEq(LimitOf(g, g.ul[k][1]), g.ul[k][2])
                         /\ \A k \in DOMAIN g.un : g.un[k][1] \in (N \ {"omega"}) => FEq(NominalOf(g, g.un[k][1]), g.un[k][2])
SignRange == ready = 1 => \A n \in N : LowOf(g, n) \preceq 0 /\ (n # "u_sup" => "-1" \preceq LowOf(g, n)) /\ 1 \preceq HighOf(g, n)
=============================================================================
