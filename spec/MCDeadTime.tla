----------------------------- MODULE MCDeadTime -----------------------------
(* Design check of the dead time: an agent that keeps one buffer for its action *)
(* and overwrites it, resets at any time, two delays in series; everything      *)
(* commanded is executed once, in order, d steps later.                          *)
EXTENDS DeadTime, TLC, Json
CONSTANTS D1, D2, Acts, MaxLen, MaxEp, ByReference
VARIABLES buf, q1, q2, cmds, exec, ep, hist
vars == <<buf, q1, q2, cmds, exec, ep, hist>>
Zero == "zero"
Fill(d) == [i \in 1..d |-> Zero]
Init == buf = Zero /\ q1 = Fill(D1) /\ q2 = Fill(D2) /\ cmds = <<>> /\ exec = <<>> /\ ep = 1 /\ hist = <<"reset">>
Val(a) == IF a = "buffer" THEN buf ELSE a
(* the agent writes into its buffer and passes it; the processor keeps a copy *)
Do(a) == /\ Len(hist) < MaxLen
         /\ buf' = a
         /\ LET kept == IF ByReference THEN "buffer" ELSE a
                x == Executed(q1, kept)
                xv == IF x = "buffer" THEN a ELSE x
                y == Executed(q2, xv) IN
            /\ q1' = Advance(q1, kept) /\ q2' = Advance(q2, xv)
            /\ exec' = Append(exec, y) /\ cmds' = Append(cmds, a)
         /\ hist' = Append(hist, a) /\ UNCHANGED ep
Reset == /\ Len(hist) < MaxLen /\ ep < MaxEp
         /\ q1' = Fill(D1) /\ q2' = Fill(D2) /\ cmds' = <<>> /\ exec' = <<>> /\ ep' = ep + 1
         /\ hist' = Append(hist, "reset") /\ UNCHANGED buf
Next == Reset \/ \E a \in Acts : Do(a)
Spec == Init /\ [][Next]_vars
D == D1 + D2
Delayed == \A n \in 1..Len(exec) : exec[n] = (IF n <= D THEN Zero ELSE cmds[n - D])
InFlight == Len(q1) = D1 /\ Len(q2) = D2
Emit == (Len(hist) = MaxLen) => PrintT("GEN|" \o ToJson(hist))
=============================================================================
