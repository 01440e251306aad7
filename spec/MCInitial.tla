----------------------------- MODULE MCInitial -----------------------------
(* Design of C21: all ways a user may name up to three states in any order, with or without intervals;    *)
(* an abstract episode start picks any permitted value for every state.                                   *)
EXTENDS Initial, TLC
CONSTANT Values          \* numbers that may be given or drawn (small integers)
Nm == {"x", "y", "z"}
Nominal(n) == 2
Low(n) == IF n = "x" THEN 0 ELSE "-1"
Seqs == UNION {[1..k -> Nm] : k \in 0..3}
Orders == {s \in Seqs : \A a, b \in DOMAIN s : a # b => s[a] # s[b]}
Modes == {"const", "uniform", "gaussian"}
VARIABLES ini, start, ready
vars == <<ini, start, ready>>
Init == ini = <<>> /\ start = <<>> /\ ready = 0
Pick == /\ ready = 0
        /\ \E m \in Modes, o \in Orders, v \in [Nm -> Values] :
             ini' = [mode |-> m, given |-> [k \in DOMAIN o |-> <<o[k], v[o[k]]>>],
                     mu |-> "none", sigma |-> "0.125",
                     rows |-> IF m = "const" THEN <<>> ELSE [k \in DOMAIN o |-> <<o[k], FMin(v[o[k]], 1), 1>>]]
        /\ start' = <<>> /\ ready' = 1
Begin == /\ ready > 0 /\ ready < 3
         /\ \E s \in [Nm -> Values] : (\A n \in Nm : Startable(ini, n, Nominal(n), Low(n)) /\ MayStart(s[n], ini, n, Nominal(n), Low(n))) /\ (\A n \in Nm : AroundCentre(s[n], ini, n, Nominal(n), Low(n))) /\ start' = s
         /\ ready' = ready + 1 /\ UNCHANGED ini
Next == Pick \/ Begin
Spec == Init /\ [][Next]_vars
(* every started episode lies within what the nominal values permit, and within the given interval *)
Permitted == ready > 1 => \A n \in Nm : InBounds(start[n], ini.rows, n, Nominal(n), Low(n))
(* the middle of the permitted interval is always a permitted value *)
Central == ready > 0 /\ ini.mode = "gaussian" => \A n \in Nm : MayStart(Centre(ini, n, Nominal(n), Low(n)), ini, n, Nominal(n), Low(n))
(* a constant is found wherever it stands in the user's list: every permutation means the same *)
Perms == {p \in [DOMAIN ini.given -> DOMAIN ini.given] : \A a, b \in DOMAIN p : a # b => p[a] # p[b]}
OrderFree == ready = 1 => \A p \in Perms, n \in Nm : ByName([k \in DOMAIN ini.given |-> ini.given[p[k]]], n, 1) = ByName(ini.given, n, 1)
(* states the user does not name start at zero; constants repeat in every episode *)
Unnamed == (ready > 1 /\ ini.mode = "const") => \A n \in Nm : (\A k \in DOMAIN ini.given : ini.given[k][1] # n) => FEq(start[n], 0)
=============================================================================
