------------------------------ MODULE Registry ------------------------------
(* The registered environments (C22): every id (control set, task, motor)      *)
(* is a row of components; a component is [cls, args].  Overrides resolve to    *)
(* an object, updated arguments, the default, or are refused.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ctrls == {"Cont", "Finite"}
Tasks == {"TC", "SC", "CC"}
DcMotors == {"PermExDc", "ExtExDc", "SeriesDc", "ShuntDc"}
AcMotors == {"PMSM", "SynRM", "EESM", "SCIM", "DFIM"}
MotorNames == DcMotors \cup AcMotors
None == << >>
Comp(c, a) == [cls |-> c, args |-> a]
MotorClass == [PermExDc |-> "DcPermanentlyExcitedMotor", ExtExDc |-> "DcExternallyExcitedMotor", SeriesDc |-> "DcSeriesMotor", ShuntDc |-> "DcShuntMotor",
               PMSM |-> "PermanentMagnetSynchronousMotor", SynRM |-> "SynchronousReluctanceMotor", EESM |-> "ExternallyExcitedSynchronousMotor",
               SCIM |-> "SquirrelCageInductionMotor", DFIM |-> "DoublyFedInductionMotor"]
SystemClass == [PermExDc |-> "DcMotorSystem", ExtExDc |-> "DcMotorSystem", SeriesDc |-> "DcMotorSystem", ShuntDc |-> "DcMotorSystem",
                PMSM |-> "SynchronousMotorSystem", SynRM |-> "SynchronousMotorSystem", EESM |-> "ExternallyExcitedSynchronousMotorSystem",
                SCIM |-> "SquirrelCageInductionMotorSystem", DFIM |-> "DoublyFedInductionMotorSystem"]
(* ---- power electronics: topology of the machine ------------------------------ *)
Bridges(m) == CASE m \in {"PermExDc", "SeriesDc", "ShuntDc"} -> <<"4QC">> [] m = "ExtExDc" -> <<"4QC", "4QC">>
                [] m \in {"PMSM", "SynRM", "SCIM"} -> <<"B6">> [] m = "EESM" -> <<"B6", "4QC">> [] m = "DFIM" -> <<"B6", "B6">>
BridgeClass(c, b) == c \o (IF b = "B6" THEN "B6BridgeConverter" ELSE "FourQuadrantConverter")
Converter(c, m) == LET b == Bridges(m) IN
  IF Len(b) = 1 THEN Comp(BridgeClass(c, b[1]), None)
  ELSE Comp(c \o "MultiConverter", [subconverters |-> [i \in DOMAIN b |-> Comp(BridgeClass(c, b[i]), None)]])
(* ---- action space: one duty cycle per bridge leg, or the set of switching states *)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Duties(m) == SumOf([i \in DOMAIN Bridges(m) |-> IF Bridges(m)[i] = "B6" THEN 3 ELSE 1])
Switches(m) == [i \in DOMAIN Bridges(m) |-> IF Bridges(m)[i] = "B6" THEN 8 ELSE 4]
(* ---- supply, load ---------------------------------------------------------------- *)
Voltage(c, t, m) ==
  CASE c = "Cont" /\ t = "CC" /\ m \in {"PMSM", "EESM"} -> "300.0"
    [] c = "Finite" /\ t \in {"CC", "TC"} /\ m = "SeriesDc" -> "420.0"
    [] m \in DcMotors -> "60.0"
    [] OTHER -> "420.0"
Poly(a, b, j) == [load_parameter |-> [a |-> a, b |-> b, c |-> "0.0", j_load |-> j]]
Load(c, t, m) ==
  IF t # "SC" THEN Comp("ConstantSpeedLoad", [omega_fixed |-> IF c = "Cont" /\ t = "TC" /\ m = "ShuntDc" THEN "230.0" ELSE "100.0"])
  ELSE Comp("PolynomialStaticLoad",
       CASE m = "PermExDc" -> Poly("0.0", "0.0", IF c = "Cont" THEN "0.0001" ELSE "0.001")
         [] m = "ExtExDc" -> Poly("0.0", "0.0", "0.0001")
         [] m = "SeriesDc" -> Poly(IF c = "Cont" THEN "0.01" ELSE "0.15", "0.05", "0.0001")
         [] m = "ShuntDc" -> Poly("0.05", "0.01", "0.0001")
         [] m = "EESM" /\ c = "Finite" -> None
         [] OTHER -> [load_parameter |-> [a |-> "0.01", b |-> "0.01", c |-> "0.0"]])
(* ---- references and reward ------------------------------------------------------------ *)
Referenced(t, m) ==
  CASE t = "SC" -> <<"omega">> [] t = "TC" -> <<"torque">>
    [] m \in {"PermExDc", "SeriesDc"} -> <<"i">> [] m = "ShuntDc" -> <<"i_a">> [] m = "ExtExDc" -> <<"i_a", "i_e">>
    [] m = "EESM" -> <<"i_sd", "i_sq", "i_e">> [] OTHER -> <<"i_sd", "i_sq">>
Sigma(c, t, m) ==
  CASE m = "PermExDc" /\ t \in {"CC", "TC"} -> <<"0.01", "0.1">>
    [] t # "SC" -> <<>>
    [] m = "PermExDc" -> <<"0.001", IF c = "Cont" THEN "0.05" ELSE "0.005">>
    [] m = "SeriesDc" -> <<"0.001", IF c = "Cont" THEN "0.02" ELSE "0.005">>
    [] m = "ShuntDc" -> <<"0.001", IF c = "Cont" THEN "0.03" ELSE "0.005">>
    [] m \in {"SynRM", "SCIM", "DFIM"} -> <<"0.001", "0.01">>
    [] OTHER -> <<>>
WienerArgs(c, t, m, r) ==
  LET s == Sigma(c, t, m) IN
  (IF s = <<>> THEN [reference_state |-> r] ELSE [reference_state |-> r, sigma_range |-> s])
  @@ (IF c = "Cont" /\ t = "TC" /\ m = "ShuntDc" THEN [limit_margin |-> <<"0.0", "0.8">>]
      ELSE IF c = "Cont" /\ t = "CC" /\ r = "i_e" /\ m = "EESM" THEN [limit_margin |-> <<"0.0", "1.0">>] ELSE << >>)
References(c, t, m) ==
  LET r == Referenced(t, m)  w == [i \in DOMAIN r |-> Comp("WienerProcessReferenceGenerator", WienerArgs(c, t, m, r[i]))] IN
  IF Len(r) = 1 THEN w[1] ELSE Comp("MultipleReferenceGenerator", [sub_generators |-> w])
Weight(n) == CASE n = 1 -> "1.0" [] n = 2 -> "0.5" [] n = 3 -> "0.3333333333333333"
Weights(t, m) == LET r == Referenced(t, m) IN [n \in {r[i] : i \in DOMAIN r} |-> Weight(Len(r))]
Reward(t, m) == Comp("WeightedSumOfErrors", [reward_weights |-> Weights(t, m)])
(* ---- constraints: the currents ---------------------------------------------------------- *)
Limit(ns) == [kind |-> "limit", names |-> ns]
Constraints(m) ==
  CASE m \in {"PermExDc", "SeriesDc"} -> <<Limit(<<"i">>)>> [] m \in {"ExtExDc", "ShuntDc"} -> <<Limit(<<"i_a", "i_e">>)>>
    [] m = "EESM" -> << [kind |-> "squared", names |-> <<"i_sq", "i_sd">>], Limit(<<"i_e">>) >>
    [] OTHER -> << [kind |-> "squared", names |-> <<"i_sq", "i_sd">>] >>
Tau(c) == IF c = "Cont" THEN "0.0001" ELSE "0.00001"
Plots(t, m) == IF m = "ShuntDc" /\ t = "CC" THEN <<"i_a">> ELSE Referenced(t, m)
Row(c, t, m) ==
  [id |-> c \o "-" \o t \o "-" \o m \o "-v0", system |-> SystemClass[m], tau |-> Tau(c),
   supply |-> Comp("IdealVoltageSupply", [u_nominal |-> Voltage(c, t, m)]), converter |-> Converter(c, m), motor |-> Comp(MotorClass[m], None),
   load |-> Load(c, t, m), ode_solver |-> Comp("ScipyOdeSolver", None), reference_generator |-> References(c, t, m),
   reward_function |-> Reward(t, m), visualization |-> Comp("MotorDashboard", [state_plots |-> Plots(t, m), action_plots |-> "all"]),
   constraints |-> Constraints(m), currentsum |-> m = "ShuntDc",
   cont |-> c = "Cont", duties |-> Duties(m), switches |-> Switches(m), referenced |-> Referenced(t, m)]
(* ---- overrides ------------------------------------------------------------------------------ *)
Slots == {"supply", "converter", "motor", "load", "ode_solver", "reference_generator", "reward_function", "visualization"}
Forms == {"none", "object", "dict", "class", "str"}
(* arguments of the default class after an override *)
Update(a, d) == [k \in DOMAIN a \cup DOMAIN d |-> IF k \in DOMAIN d THEN d[k] ELSE a[k]]
Resolve(default, o) ==
  CASE o.form = "none" -> [kind |-> "built", cls |-> default.cls, args |-> default.args]
    [] o.form = "object" -> [kind |-> "given", obj |-> o.obj]
    [] o.form = "dict" -> [kind |-> "built", cls |-> default.cls, args |-> Update(default.args, o.args)]
    [] OTHER -> [kind |-> "refused"]
=============================================================================
