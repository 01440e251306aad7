----------------------------- MODULE MCMotors -----------------------------
(* Design check of Motors: the energy balance (and for DC machines the      *)
(* reciprocity of torque and induced voltage) holds on a finite grid of     *)
(* parameters, states, voltages and speeds for every machine type.          *)
EXTENDS Motors, TLC
CONSTANTS Vals, Speeds
SmallVals == {-2, 0, 3}
TinyVals == {-2, 3}
BigVals == {"-2.5", -1, 0, 3}
SmallSpeeds == {-5, 0, 7}
VARIABLES type, x, u, w
NX == [PermExDc |-> 1, SeriesDc |-> 1, ShuntDc |-> 2, ExtExDc |-> 2, PMSM |-> 2, SynRM |-> 2, EESM |-> 3, SCIM |-> 4, DFIM |-> 4]
NU == [PermExDc |-> 1, SeriesDc |-> 1, ShuntDc |-> 1, ExtExDc |-> 2, PMSM |-> 2, SynRM |-> 2, EESM |-> 3, SCIM |-> 2, DFIM |-> 4]
Mp == [r_a |-> "0.4", r_e |-> "0.7", l_a |-> "0.02", l_e |-> "0.5", l_e_prime |-> "0.3", psi_e |-> "0.6",
       r_s |-> "0.9", l_d |-> "0.08", l_q |-> "0.03", psi_p |-> "0.25", p |-> 3, l_m |-> "0.002", k |-> 4,
       l_sigs |-> "0.01", l_sigr |-> "0.013", r_r |-> "1.3"]
MpE == [Mp EXCEPT !.l_e = "0.004", !.l_m = "0.006"]
P(t) == IF t = "EESM" THEN MpE ELSE Mp
Pad(t, v) == IF t \in SyncTypes \cup {"EESM"} \cup InductionTypes THEN v \o <<"0.3">> ELSE v
Init == /\ type \in MotorTypes
        /\ x \in [1..NX[type] -> Vals] /\ u = <<>> /\ w = 0
Next == /\ u = <<>> /\ UNCHANGED <<type, x>>
        /\ u' \in [1..NU[type] -> Vals] /\ w' \in Speeds
Spec == Init /\ [][Next]_<<type, x, u, w>>
Energy == u = <<>> \/ PowerBalance(type, P(type), Pad(type, x), u, w)
(* the derivative operators agree with second differences: the model is affine / quadratic *)
Affine == u = <<>> \/ LET xx == Pad(type, x) IN
   \A j \in 1..NX[type] :
      NearTolV(VSub(Ode(type, P(type), Eager(Bump(xx, j, 2)), u, w), Ode(type, P(type), xx, u, w)),
               VScale(2, VSub(Ode(type, P(type), Eager(Bump(xx, j, 1)), u, w), Ode(type, P(type), xx, u, w))), "1e-8")
=============================================================================
