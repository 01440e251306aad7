------------------------------ MODULE MCPrinter ------------------------------
(* The printer under every history of resets, steps, terminations, renders.    *)
EXTENDS Printer, TLC, FiniteSets
CONSTANTS Depth, Verbose, Freq
VARIABLES p, log, lines, last
vars == <<p, log, lines, last>>
Init == p = P0 /\ log = <<>> /\ lines = <<>> /\ last = "start"
NSteps == Len(SelectSeq(log, LAMBDA e : e.k = "step"))
DoReset == log' = Append(log, [k |-> "reset", id |-> 0, term |-> FALSE]) /\ p' = POnReset(p) /\ last' = "reset" /\ UNCHANGED lines
DoStep(t) == /\ log # <<>> /\ ~(log[Len(log)].term)
             /\ log' = Append(log, [k |-> "step", id |-> NSteps + 1, term |-> t]) /\ p' = POnStep(p, NSteps + 1, t) /\ last' = "step" /\ UNCHANGED lines
DoRender == /\ last # "render" /\ last' = "render" /\ p' = POnRender(p, Verbose) /\ UNCHANGED log
            /\ lines' = lines \o (IF EpisodeLine(p, Verbose) THEN <<[k |-> "episode", e |-> p.ended]>> ELSE <<>>)
                              \o (IF StepLine(p, Verbose, Freq) THEN <<[k |-> "step", e |-> [no |-> p.no, steps |-> p.k, cum |-> p.cum, violated |-> p.done]]>> ELSE <<>>)
Next == Len(log) < Depth /\ (DoReset \/ DoStep(TRUE) \/ DoStep(FALSE) \/ DoRender)
Spec == Init /\ [][Next]_vars
Resets == {i \in DOMAIN log : log[i].k = "reset"}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Current == SubSeq(log, Max0(Resets) + 1, Len(log))
CountsEpisodes == p.no = Cardinality(Resets)
ThisEpisode == p.k = Len(Current) /\ FEq(p.cum, SumInt([i \in DOMAIN Current |-> Current[i].id])) /\ (p.done <=> (Current # <<>> /\ Current[Len(Current)].term))
(* an episode is reported at most once, after it ended, in order *)
Reports == SelectSeq(lines, LAMBDA x : x.k = "episode")
Once == \A i, j \in DOMAIN Reports : i < j => Reports[i].e.no < Reports[j].e.no
OnlyEnded == \A i \in DOMAIN Reports : Reports[i].e.no < p.no
Silent == Verbose = 0 => lines = <<>>
RenderIsPure == [][last' = "render" => [p' EXCEPT !.pending = FALSE] = [p EXCEPT !.pending = FALSE]]_vars
=============================================================================
