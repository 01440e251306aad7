------------------------------- MODULE Clock -------------------------------
(* The clocks of a drive (C06): step counter k, simulation time t = k tau and  *)
(* the times at which its time-dependent components are asked.                 *)
EXTENDS Flt, Integers, Sequences
ClockReset(tau) == [k |-> 0, tau |-> tau]
ClockStep(c) == [c EXCEPT !.k = @ + 1]
Now(c) == c.k ** c.tau
(* comparison of times: sums of many tau carry rounding *)
SameTime(c, a, b) == FClose(a, b, "1e-9", "1e-9" ** c.tau)
From(c, a, b) == a \preceq (b ++ ("1e-9" ** (FAbs(b) ++ c.tau)))        \* a <= b up to rounding
(* one step: the converter is given its action at Now; its switching intervals end at increasing times after Now,
   the last exactly at Now + tau *)
EndsOk(c, ends) ==
  /\ Len(ends) > 0 /\ SameTime(c, ends[Len(ends)], Now(c) ++ c.tau)
  /\ \A i \in DOMAIN ends : From(c, Now(c), ends[i]) /\ From(c, ends[i], Now(c) ++ c.tau) /\ (i > 1 => ends[i - 1] \preceq ends[i])
(* a converter is asked for its voltage at the ends of these intervals, in this order *)
AskedOk(c, asked, ends) == Len(asked) = Len(ends) /\ \A i \in DOMAIN asked : SameTime(c, asked[i], ends[i])
InStep(c, t) == From(c, Now(c), t) /\ From(c, t, Now(c) ++ c.tau)
(* what a speed profile may be asked for: from the present to one sampling period beyond the step *)
ProfileTime(c, t) == From(c, Now(c), t) /\ From(c, t, Now(c) ++ (2 ** c.tau))
=============================================================================
