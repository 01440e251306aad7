----------------------------- MODULE MCDashHist -----------------------------
(* All histories of what may happen to a dashboard, up to N operations.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N
VARIABLES h
Ops == {"step", "term", "reset", "render", "clear"}
LastEnv == LET e == SelectSeq(h, LAMBDA o : o \in {"step", "term", "reset"}) IN e[Len(e)]
Init == h = <<"reset">>
May(o) == CASE o \in {"step", "term"} -> LastEnv # "term" [] o \in {"render", "clear"} -> h[Len(h)] # o [] OTHER -> TRUE
Next == Len(h) < N /\ \E o \in Ops : May(o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == (Len(h) = N /\ h[N] = "render") => PrintT("GEN|" \o ToJson(h))
=============================================================================
