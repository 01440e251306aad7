----------------------------- MODULE MCDashboard -----------------------------
(* The dashboard under every history of resets, steps, renders and clears.     *)
EXTENDS Dashboard, TLC, FiniteSets
CONSTANTS Depth, Width, Interval
VARIABLES d, log, last, clearedAt, renders
vars == <<d, log, last, clearedAt, renders>>
At == <<1, 0>>
Init == d = D0(2) /\ log = <<>> /\ last = "start" /\ clearedAt = 0 /\ renders = 0
Steps(l) == SelectSeq(l, LAMBDA e : e.k = "step")
NSteps == Len(Steps(log))
CanStep == d.done # "none" /\ (log # <<>>) /\ ~(log[Len(log)].k = "step" /\ log[Len(log)].term)
DoStep(term) == LET id == NSteps + 1 IN
  /\ CanStep /\ log' = Append(log, [k |-> "step", id |-> id, term |-> term])
  /\ d' = OnStep(d, <<id, -id>>, At, id, term, Width, Interval) /\ last' = "step" /\ UNCHANGED <<clearedAt, renders>>
DoReset == log' = Append(log, [k |-> "reset", id |-> 0, term |-> FALSE]) /\ d' = OnReset(d) /\ last' = "reset" /\ UNCHANGED <<clearedAt, renders>>
DoRender == d' = OnRender(d) /\ last' = "render" /\ renders' = renders + (IF d.due THEN 1 ELSE 0) /\ last # "render" /\ UNCHANGED <<log, clearedAt>>
DoClear == d' = OnClear(d) /\ last' = "clear" /\ clearedAt' = Len(log) /\ last # "clear" /\ UNCHANGED <<log, renders>>
Next == (Len(log) < Depth) /\ (DoStep(TRUE) \/ DoStep(FALSE) \/ DoReset \/ DoRender \/ DoClear)
Spec == Init /\ [][Next]_vars
Since == SubSeq(log, clearedAt + 1, Len(log))
Mine == Steps(Since)
(* every time plot holds exactly the last steps, each with its own value and time *)
Window == \A j \in 1..2 : LET s == d.book.series[j]  m == Len(Mine) IN
            /\ Len(s) = (IF m < Width THEN m ELSE Width)
            /\ \A i \in DOMAIN s : LET e == Mine[m - Len(s) + i]  pos == m - Len(s) + i IN
                 s[i].v = (IF j = 1 THEN e.id ELSE -e.id) /\ s[i].n = pos - (1 - At[j])
(* one entry per episode that began and ended since the data was cleared *)
Resets == {i \in DOMAIN Since : Since[i].k = "reset"}
Episodes == Len(d.book.episodes) = (IF Resets = {} THEN 0 ELSE Cardinality(Resets) - 1)
Lengths == d.book.episodes # <<>> => SumInt([i \in DOMAIN d.book.episodes |-> d.book.episodes[i].len]) <= Len(Mine)
Violations == d.book.cum = Cardinality({i \in DOMAIN Mine : Mine[i].term})
MarksInOrder == \A m \in {d.book.vmarks, d.book.rmarks} : \A i \in 1..(Len(m) - 1) : m[i] <= m[i + 1]
Marks == Len(d.book.vmarks) + Len(d.book.rmarks) <= Cardinality(Resets)
Rarely == renders * Interval <= d.steps
(* rendering changes nothing that is recorded; nothing but rendering changes what is shown *)
RenderIsPure == [][last' = "render" => d'.book = d.book]_vars
ShownOnlyByRender == [][(last' # "render" /\ last' # "clear") => d'.shown = d.shown]_vars
=============================================================================
