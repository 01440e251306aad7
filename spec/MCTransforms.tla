---------------------------- MODULE MCTransforms ----------------------------
(* Design check of the three-phase transformations and of commanding a rotating *)
(* machine in dq coordinates through a dead time of d steps: the phase voltages  *)
(* computed d steps ahead at the angle advanced by (1/2 + d) steps are, in the    *)
(* frame of the middle of the step in which they are applied, the command.       *)
EXTENDS Transforms, TLC, FiniteSets
CONSTANTS Angles, Speeds, Cmds, Dead, Steps
VARIABLES ready, x, k, queue, cmds, out
vars == <<ready, x, k, queue, cmds, out>>
SmallAngles == {"0.0", "0.7", "1.5707963267948966", "3.1", "-2.5"}
SmallSpeeds == {"0.0", "0.3", "-1.1"}
SmallCmds == {<<"1.0", "0.0">>, <<"-0.4", "0.8">>}
Theta(n) == x.e ++ (n ** x.w)
Init == ready = FALSE /\ x = [d |-> 0, e |-> "0.0", w |-> "0.0"] /\ k = 0 /\ queue = <<>> /\ cmds = <<>> /\ out = <<>>
Choose == /\ ~ready /\ ready' = TRUE
          /\ \E d \in 0..Dead, e \in Angles, w \in Speeds : x' = [d |-> d, e |-> e, w |-> w]
          /\ queue' = [i \in 1..x'.d |-> <<"0.0", "0.0", "0.0">>]
          /\ UNCHANGED <<k, cmds, out>>
Command == /\ ready /\ k < Steps
           /\ \E c \in Cmds :
                LET abc == DqToAbc(c, Theta(k) ++ (("0.5" ++ x.d) ** x.w))
                    q == Append(queue, abc) IN
                /\ cmds' = Append(cmds, c) /\ out' = Append(out, Head(q)) /\ queue' = Tail(q)
           /\ k' = k + 1 /\ UNCHANGED <<ready, x>>
Next == Choose \/ Command
Spec == Init /\ [][Next]_vars
Tol == "1e-12"
Close(a, b) == \A i \in DOMAIN a : FClose(a[i], b[i], Tol, Tol)
Applied(n) == AbcToDq(out[n], Theta(n - 1) ++ ("0.5" ** x.w))
(* the command of d steps before is what the machine sees in its rotating frame *)
Hits == \A n \in 1..Len(out) : IF n <= x.d THEN Close(out[n], <<"0.0", "0.0", "0.0">>) ELSE Close(Applied(n), cmds[n - x.d])
ZeroSum == \A n \in 1..Len(out) : FClose((out[n][1] ++ out[n][2]) ++ out[n][3], 0, Tol, Tol)
Inverse == \A c \in Cmds : Close(AbcToDq(DqToAbc(c, x.e), x.e), c) /\ Close(Rot(Rot(c, x.e), FNeg(x.e)), c) /\ Close(T23(T32(c)), c)
(* amplitude invariance: a balanced system of amplitude 1 becomes a vector of length 1 *)
Amplitude == LET v == <<FCos(x.e), FCos(x.e -- "2.0943951023931953"), FCos(x.e ++ "2.0943951023931953")>> IN
             /\ FClose(Norm2(T23(v)), 1, Tol, Tol) /\ Close(AbcToDq(v, x.e), <<"1.0", "0.0">>)
WrapOK == LET m == Wrap(Theta(k)) IN m \preceq Pi /\ (FNeg(Pi) \preceq m) /\ FClose(FCos(m), FCos(Theta(k)), Tol, Tol) /\ FClose(FSin(m), FSin(Theta(k)), Tol, Tol)
=============================================================================
