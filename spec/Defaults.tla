----------------------------- MODULE Defaults -----------------------------
(* Default parameters, limits and nominal values of the electric motors.   *)
MotorParameterDefaults == [
  PermExDc |-> [r_a |-> "0.016", l_a |-> "1.9e-05", psi_e |-> "0.165", j_rotor |-> "0.025"],
  ExtExDc |-> [r_a |-> "0.016", r_e |-> "0.16", l_a |-> "1.9e-05", l_e_prime |-> "0.0017", l_e |-> "0.0054", j_rotor |-> "0.0025"],
  SeriesDc |-> [r_a |-> "0.016", r_e |-> "0.048", l_a |-> "1.9e-05", l_e_prime |-> "0.0017", l_e |-> "0.0054", j_rotor |-> "0.0025"],
  ShuntDc |-> [r_a |-> "0.016", r_e |-> "0.4", l_a |-> "1.9e-05", l_e_prime |-> "0.0017", l_e |-> "0.0054", j_rotor |-> "0.0025"],
  PMSM |-> [p |-> "3.0", l_d |-> "0.00037", l_q |-> "0.0012", j_rotor |-> "0.03883", r_s |-> "0.018", psi_p |-> "0.066"],
  SynRM |-> [p |-> "4.0", l_d |-> "0.0101", l_q |-> "0.0041", j_rotor |-> "0.0008", r_s |-> "0.57"],
  EESM |-> [p |-> "3.0", l_d |-> "0.00166", l_q |-> "0.00035", l_m |-> "0.001589", l_e |-> "0.00174", j_rotor |-> "0.3883", r_s |-> "0.01555", r_e |-> "0.0072", k |-> "65.21"],
  SCIM |-> [p |-> "2.0", l_m |-> "0.14375", l_sigs |-> "0.00587", l_sigr |-> "0.00587", j_rotor |-> "0.0011", r_s |-> "2.9338", r_r |-> "1.355"],
  DFIM |-> [p |-> "2.0", l_m |-> "0.2975", l_sigs |-> "0.02571", l_sigr |-> "0.02571", j_rotor |-> "0.013695", r_s |-> "4.42", r_r |-> "3.51"] ]
MotorLimitDefaults == [
  PermExDc |-> [omega |-> "400.0", torque |-> "38.0", i |-> "210.0", u |-> "60.0"],
  ExtExDc |-> [omega |-> "400.0", torque |-> "38.0", i |-> "210.0", i_a |-> "210.0", i_e |-> "210.0", u |-> "60.0", u_a |-> "60.0", u_e |-> "60.0"],
  SeriesDc |-> [omega |-> "400.0", torque |-> "38.0", i |-> "210.0", i_a |-> "210.0", i_e |-> "210.0", u |-> "60.0", u_a |-> "60.0", u_e |-> "60.0"],
  ShuntDc |-> [omega |-> "400.0", torque |-> "38.0", i |-> "210.0", i_a |-> "210.0", i_e |-> "210.0", u |-> "60.0", u_a |-> "60.0", u_e |-> "60.0"],
  PMSM |-> [omega |-> "418.87902047863906", torque |-> "0.0", i |-> "400.0", epsilon |-> "3.141592653589793", u |-> "300.0"],
  SynRM |-> [i |-> "18.0", torque |-> "0.0", omega |-> "450.294947014537", epsilon |-> "3.141592653589793", u |-> "80.0"],
  EESM |-> [omega |-> "1256.6370614359173", torque |-> "0.0", i |-> "150.0", i_e |-> "150.0", epsilon |-> "3.141592653589793", u |-> "320.0"],
  SCIM |-> [omega |-> "418.87902047863906", torque |-> "0.0", i |-> "5.5", epsilon |-> "3.141592653589793", u |-> "560.0"],
  DFIM |-> [omega |-> "188.49555921538757", torque |-> "0.0", i |-> "9.0", epsilon |-> "3.141592653589793", u |-> "720.0"] ]
MotorNominalDefaults == [
  PermExDc |-> [omega |-> "300.0", torque |-> "16.0", i |-> "97.0", u |-> "60.0"],
  ExtExDc |-> [omega |-> "300.0", torque |-> "16.0", i |-> "97.0", i_a |-> "97.0", i_e |-> "97.0", u |-> "60.0", u_a |-> "60.0", u_e |-> "60.0"],
  SeriesDc |-> [omega |-> "300.0", torque |-> "16.0", i |-> "97.0", i_a |-> "97.0", i_e |-> "97.0", u |-> "60.0", u_a |-> "60.0", u_e |-> "60.0"],
  ShuntDc |-> [omega |-> "300.0", torque |-> "16.0", i |-> "97.0", i_a |-> "97.0", i_e |-> "97.0", u |-> "60.0", u_a |-> "60.0", u_e |-> "60.0"],
  PMSM |-> [omega |-> "314.1592653589793", torque |-> "0.0", i |-> "240.0", epsilon |-> "3.141592653589793", u |-> "300.0"],
  SynRM |-> [i |-> "10.0", torque |-> "0.0", omega |-> "314.1592653589793", epsilon |-> "3.141592653589793", u |-> "80.0"],
  EESM |-> [omega |-> "450.294947014537", torque |-> "0.0", i |-> "120.0", i_e |-> "150.0", epsilon |-> "3.141592653589793", u |-> "320.0"],
  SCIM |-> [omega |-> "314.1592653589793", torque |-> "0.0", i |-> "3.9", epsilon |-> "3.141592653589793", u |-> "560.0"],
  DFIM |-> [omega |-> "172.78759594743863", torque |-> "0.0", i |-> "7.5", epsilon |-> "3.141592653589793", u |-> "720.0"] ]
=============================================================================
