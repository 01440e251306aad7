------------------------------ MODULE Dashboard ------------------------------
(* What a dashboard knows and shows (C27).  It hears of every reset and step,  *)
(* remembers the last `width' values of its time plots, one entry per finished *)
(* episode and the number of violations, and copies all of it to the figure    *)
(* when it is rendered and an update interval has passed.                      *)
EXTENDS Flt, Sequences, Naturals
AppendW(s, x, w) == IF Len(s) < w THEN Append(s, x) ELSE Append(Tail(s), x)
Book0 == [n |-> 0, series |-> <<>>, episodes |-> <<>>, no |-> -1, len |-> 0, sum |-> 0,
          viols |-> <<[x |-> 0, y |-> 0]>>, cum |-> 0, vmarks |-> <<>>, rmarks |-> <<>>]
D0(nplots) == [book |-> [Book0 EXCEPT !.series = [j \in 1..nplots |-> <<>>]], steps |-> 0, due |-> FALSE, done |-> "none", drawn |-> FALSE, shown |-> Book0]

(* an episode ends with the next reset; one without steps has no mean reward *)
Ended(b) == IF b.no < 0 THEN b.episodes ELSE Append(b.episodes, [no |-> b.no, len |-> b.len, mean |-> IF b.len = 0 THEN "none" ELSE b.sum // b.len])
ResetBook(b, done) ==
  [b EXCEPT !.episodes = Ended(b), !.no = @ + 1, !.len = 0, !.sum = 0,
            !.vmarks = IF done = "yes" THEN Append(@, b.n) ELSE @, !.rmarks = IF done = "no" THEN Append(@, b.n) ELSE @]
OnReset(d) == [d EXCEPT !.book = ResetBook(d.book, d.done), !.done = "no"]

(* vals[j]: value of the j-th time plot for this step; at[j] 0: shown at the time of the step's begin, 1: at its end *)
StepBook(b, vals, at, reward, term, width) ==
  LET n1 == b.n + 1 IN
  [b EXCEPT !.n = n1, !.len = @ + 1, !.sum = Eager(b.sum ++ reward),
            !.series = [j \in DOMAIN b.series |-> AppendW(b.series[j], [n |-> IF at[j] = 1 THEN n1 ELSE b.n, v |-> vals[j]], width)],
            !.viols = IF term THEN @ \o <<[x |-> n1 - 1, y |-> b.cum], [x |-> n1, y |-> b.cum + 1]>> ELSE @,
            !.cum = IF term THEN @ + 1 ELSE @]
OnStep(d, vals, at, reward, term, width, interval) ==
  [d EXCEPT !.book = StepBook(d.book, vals, at, reward, term, width), !.steps = @ + 1,
            !.due = @ \/ ((d.steps + 1) % interval = 0), !.done = IF term THEN "yes" ELSE "no"]
OnRender(d) == IF d.due THEN [d EXCEPT !.shown = d.book, !.due = FALSE, !.drawn = TRUE] ELSE d
OnForce(d) == OnRender([d EXCEPT !.due = TRUE])
OnClear(d) == [d EXCEPT !.book = [Book0 EXCEPT !.series = [j \in DOMAIN d.book.series |-> <<>>]], !.drawn = FALSE]
=============================================================================
