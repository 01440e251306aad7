------------------------------- MODULE MCDcOps -------------------------------
(* Design check of the operating points of the DC machines on a grid.          *)
EXTENDS Control, FiniteSets, TLC
CONSTANTS Grid
VARIABLES t, T, w, ie, margin, keepOn
vars == <<t, T, w, ie, margin, keepOn>>
MpOf(k) == [r_a |-> 2, r_e |-> 8, l_a |-> 1, l_e |-> 1, l_e_prime |-> "0.5", psi_e |-> "0.25"]
MP == MpOf(t)
X(n) == CASE n = "omega" -> w [] n = "i_e" -> ie [] OTHER -> 0
LIM(n) == CASE n = "i_e" -> 4 [] n = "i_a" -> 6 [] n = "i" -> 6 [] n = "u" -> 10
SmallGrid == {-8, -3, -1, 0, 1, 2, 5, 8}
LargeGrid == (-12)..12
Margins == {"0", "0.25", "0.5"}
Init == t \in DcTypes /\ T \in Grid /\ w \in Grid /\ ie \in Grid /\ margin \in Margins /\ keepOn = TRUE
Allowed == t # "SeriesDc" \/ T >= 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Point == Eager(DcPoint(t, MP, X, LIM, margin, T))
Over == Protected(t, MP, X, LIM, margin)
Floor == t \in {"ExtExDc", "ShuntDc"} /\ (ie = 0 \/ (t = "ExtExDc" /\ ie < 0))
Capped == t = "PermExDc" /\ ((w > 0 /\ PermExCap(MP, X, LIM) \prec (T // MP.psi_e)) \/ (w <= 0 /\ (T // MP.psi_e) \prec FNeg(PermExCap(MP, X, LIM))))
Realised == Allowed => (Over \/ Floor \/ Capped \/ FClose(Torque(t, MP, RealisedBy(t, X, Point)), T, "1e-12", "1e-12"))
DrivenBack == Over => (Point[1] ** X("i_e")) \prec 0
CappedTorque == (Allowed /\ Capped) => FAbs(Torque(t, MP, Point)) \prec FAbs(T)
(* copper losses of the excitation chosen against those of every other one *)
Losses(i) == (MP.r_e ** Sq(i)) ++ (MP.r_a ** Sq((T // MP.l_e_prime) // i))
LossOptimal == (t = "ExtExDc" /\ T # 0) => \A k \in {"0.25", "0.5", "0.9", "0.99", "1.01", "1.1", "2.0", "4.0"} : Losses(Point[2]) \preceq Losses(Point[2] ** k)
=============================================================================
