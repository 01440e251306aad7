------------------------------ MODULE MCLoads ------------------------------
(* Design model of C18: a load with parameters from a grid, driven by       *)
(* motor torque chosen by the environment and integrated by explicit Euler. *)
EXTENDS Loads
CONSTANTS Coefs, Inertias, Torques, Speeds
VARIABLES ready, p, w
vars == <<ready, p, w>>
Params == [a : Coefs, b : Coefs, c : Coefs, j : Inertias]
Init == ready = FALSE /\ p = [a |-> "0", b |-> "0", c |-> "0", j |-> "1"] /\ w = "0"
Choose == ~ready /\ ready' = TRUE /\ p' \in Params /\ w' \in Speeds
Next == Choose
Spec == Init /\ [][Next]_vars
Ready == ready
(* friction never drives, vanishes at standstill, is odd, monotone and continuous at the border of the linear zone *)
Dissipative == Ready => 0 \preceq (StaticTorque(p, w) ** w)
Standstill == Ready => FEq(StaticTorque(p, 0), 0)
Odd == Ready => Near(StaticTorque(p, w), FNeg(StaticTorque(p, FNeg(w))))
Continuous == Ready => LET b == OmegaLin(p) IN Near(ConstPart(p, b), p.a) /\ NearTol(ConstPart(p, b ** "1.000000001"), ConstPart(p, b), "1e-6")
Bounded == Ready => FAbs(ConstPart(p, w)) \preceq (p.a ** "1.0000001")
(* the slope is the derivative: the polynomial parts are checked by a central difference *)
Deriv == Ready => LET h == "1e-4"  wa == OmegaLin(p)
                      same == (wa ++ h \prec FAbs(w)) \/ (FAbs(w) ++ h \prec wa) IN
         (same /\ (h \prec FAbs(w) \/ FEq(p.c, 0))) =>
           FClose((StaticTorque(p, w ++ h) -- StaticTorque(p, w -- h)) // (2 ** h), StaticSlope(p, w), "1e-5", "1e-6")
(* torque balance: the load torque and the accelerating torque add up to the motor torque *)
Balance == Ready => \A T \in Torques : FClose((p.j ** PolyOde(p, w, T)) ++ StaticTorque(p, w), T, "1e-9", "1e-8")
SmallCoefs == {"0", "0.01", "0.5", "2"}
SmallInertias == {"1e-4", "0.02", "1"}
SmallTorques == {"-3", "0", "0.7"}
SmallSpeeds == {"0", "1e-6", "-1e-6", "1e-3", "-2e-3", "0.05", "-0.4", "3", "-30", "250.5", "-600"}
=============================================================================
