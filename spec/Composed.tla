------------------------------ MODULE Composed ------------------------------
(* References put together from others.                                      *)
(* Switched: one part is active; u = observations it has given since it was  *)
(* started; it is relieved after a number of steps from the super-episode     *)
(* range (the step that starts it counts or does not, hence the one more).     *)
EXTENDS Integers, Sequences, FiniteSets
MayContinue(u, range) == u < range[2]
MayRelieve(u, range)  == range[1] <= u /\ u <= range[2]
Started(i) == [active |-> i, u |-> 1]
Shown(w)   == [w EXCEPT !.u = @ + 1]
(* Multiple: parts side by side *)
RECURSIVE Side(_)
Side(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Side(Tail(parts))
=============================================================================
