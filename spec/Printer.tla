------------------------------- MODULE Printer -------------------------------
(* The console printer (C27): it hears of resets and steps and, when rendered, *)
(* prints a line about the episode that ended (once, after the reset) and a    *)
(* line about the last step.  Printing is the only thing that rendering does.  *)
EXTENDS Flt, Sequences, Naturals
None == [no |-> -1, steps |-> 0, cum |-> 0, violated |-> FALSE]
P0 == [no |-> 0, k |-> 0, cum |-> 0, done |-> FALSE, ended |-> None, pending |-> FALSE]
POnReset(p) == [no |-> p.no + 1, k |-> 0, cum |-> 0, done |-> FALSE, pending |-> TRUE,
                ended |-> [no |-> p.no, steps |-> p.k, cum |-> p.cum, violated |-> p.done]]
POnStep(p, reward, term) == [p EXCEPT !.k = @ + 1, !.cum = Eager(p.cum ++ reward), !.done = term]
(* what one rendering prints *)
EpisodeLine(p, verbose) == verbose > 0 /\ p.pending
StepLine(p, verbose, freq) == verbose = 2 /\ p.k % freq = 0
POnRender(p, verbose) == IF verbose > 0 THEN [p EXCEPT !.pending = FALSE] ELSE p
=============================================================================
