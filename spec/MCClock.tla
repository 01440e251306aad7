------------------------------ MODULE MCClock ------------------------------
(* Design model of C06: a drive with interlocking; components keep their own   *)
(* clocks (converter: time of the last action; supply: time of the last query; *)
(* solver: integration time).  Explored for every mix of steps and resets.     *)
EXTENDS Clock, FiniteSets
CONSTANTS Taus, Depth
VARIABLES c, conv, sup, solver, pos, ends, n, total
vars == <<c, conv, sup, solver, pos, ends, n, total>>
Til(tau) == tau // 4
Init == \E tau \in Taus : c = ClockReset(tau) /\ conv = 0 /\ sup = 0 /\ solver = 0 /\ pos = 0 /\ ends = <<>> /\ n = 0 /\ total = 0
(* a step is taken in phases: action (with or without switching), then one integration per interval *)
Act == /\ pos = 0 /\ total < Depth
       /\ \E switch \in BOOLEAN :
            ends' = (IF switch THEN <<Now(c) ++ Til(c.tau)>> ELSE <<>>) \o <<Now(c) ++ c.tau>>
       /\ conv' = Now(c) /\ pos' = 1 /\ UNCHANGED <<c, sup, solver, n, total>>
Interval == /\ pos > 0 /\ pos <= Len(ends)
            /\ sup' = Now(c) /\ solver' = ends[pos] /\ pos' = pos + 1 /\ UNCHANGED <<c, conv, ends, n, total>>
Finish == /\ pos > 0 /\ pos = Len(ends) + 1
          /\ c' = ClockStep(c) /\ pos' = 0 /\ n' = n + 1 /\ total' = total + 1 /\ UNCHANGED <<conv, sup, solver, ends>>
Reset == /\ pos = 0 /\ total < Depth
         /\ c' = ClockReset(c.tau) /\ conv' = 0 /\ sup' = 0 /\ solver' = 0 /\ ends' = <<>> /\ n' = 0 /\ total' = total + 1 /\ UNCHANGED pos
Next == Act \/ Interval \/ Finish \/ Reset
Spec == Init /\ [][Next]_vars
CounterCounts == c.k = n
SolverAtNow == (pos = 0) => SameTime(c, solver, Now(c))
SolverInside == (pos > 0) => InStep(c, solver)
ComponentsInStep == (pos > 0) => /\ SameTime(c, conv, Now(c)) /\ EndsOk(c, ends) /\ (pos > 1 => InStep(c, sup))
NeverBackwards == [][(~(\E x \in {0} : c'.k = 0 /\ total' = total + 1)) => (solver \preceq solver' /\ sup \preceq sup' /\ conv \preceq conv')]_vars
=============================================================================
