------------------------------ MODULE MCRegistry ------------------------------
(* Design: all 54 rows, and all histories of making environments with           *)
(* overrides: what one call overrides never reaches another.                     *)
EXTENDS Registry, Json
CONSTANTS MaxMakes, Emitting
VARIABLES row, makes
vars == <<row, makes>>
Rows == {<<c, t, m>> : c \in Ctrls, t \in Tasks, m \in MotorNames}
Init == row \in Rows /\ makes = <<>>
R == Row(row[1], row[2], row[3])
Demo == [supply |-> [u_nominal |-> "77.0"], load |-> [extra |-> "1"], motor |-> [motor_parameter |-> "m"], ode_solver |-> [integrator |-> "x"],
         converter |-> [interlocking_time |-> "x"], reference_generator |-> [sigma_range |-> "y"], reward_function |-> [bias |-> "1"], visualization |-> [update_interval |-> "2"]]
Next == /\ ~Emitting /\ Len(makes) < MaxMakes /\ UNCHANGED row
        /\ \E s \in Slots, f \in Forms :
             makes' = Append(makes, [slot |-> s, form |-> f,
                        got |-> [z \in Slots |-> Resolve(R[z], IF z = s THEN [form |-> f, obj |-> "mine", args |-> Demo[s]] ELSE [form |-> "none"])]])
Spec == Init /\ [][Next]_vars
Default(z) == Resolve(R[z], [form |-> "none"])
OnlyTheOverridden == \A i \in DOMAIN makes : \A z \in Slots \ {makes[i].slot} : makes[i].got[z] = Default(z)
ObjectUsed == \A i \in DOMAIN makes : LET k == makes[i] IN (k.form = "object") => (k.got[k.slot].kind = "given" /\ k.got[k.slot].obj = "mine")
DictUpdates == \A i \in DOMAIN makes : LET k == makes[i]  g == k.got[k.slot] IN
   (k.form = "dict") => (g.cls = R[k.slot].cls /\ (\A a \in DOMAIN Demo[k.slot] : g.args[a] = Demo[k.slot][a])
                         /\ \A a \in DOMAIN R[k.slot].args \ DOMAIN Demo[k.slot] : g.args[a] = R[k.slot].args[a])
Refused == \A i \in DOMAIN makes : (makes[i].form \in {"class", "str"}) <=> (makes[i].got[makes[i].slot].kind = "refused")
(* ---- the table itself ------------------------------------------------------------ *)
Sizes == (R.duties = Len(Bridges(row[3])) + 2 * Cardinality({i \in DOMAIN Bridges(row[3]) : Bridges(row[3])[i] = "B6"})) /\ Len(R.switches) = Len(Bridges(row[3]))
Distinct == Cardinality({Row(x[1], x[2], x[3]).id : x \in Rows}) = 54
TaskNamed == CASE row[2] = "SC" -> R.referenced = <<"omega">> [] row[2] = "TC" -> R.referenced = <<"torque">>
               [] OTHER -> \A i \in DOMAIN R.referenced : R.referenced[i] \in {"i", "i_a", "i_e", "i_sd", "i_sq"}
OneWeightEach == DOMAIN Weights(row[2], row[3]) = {R.referenced[i] : i \in DOMAIN R.referenced}
Emit == Emitting => PrintT("GEN|" \o ToJson(R))
=============================================================================
