------------------------------ MODULE DeadTime ------------------------------
(* Actions on their way through a dead time of d steps (C09): a queue of length *)
(* d, filled with the reset actions at the beginning of an episode.             *)
EXTENDS Sequences, Integers
NewQueue(reset) == reset
(* the action executed for the command a, and the queue afterwards *)
Executed(q, a) == IF q = <<>> THEN a ELSE Head(q)
Advance(q, a) == IF q = <<>> THEN q ELSE Append(Tail(q), a)
=============================================================================
