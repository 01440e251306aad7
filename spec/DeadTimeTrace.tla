---------------------------- MODULE DeadTimeTrace ----------------------------
(* Conformance of dead-time processors (C09).                                  *)
(*  layout: two descriptions that must coincide                                 *)
(*  reset: resets (the reset actions of this episode per processor, outermost   *)
(*  first); step: a (commanded), got (actions received by the inner system)      *)
(* The order in which a list of different reset actions is executed is not      *)
(* documented: both directions are accepted (candidate queues).                 *)
EXTENDS TraceBase, DeadTime
Init0 == [cand |-> {}]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Orders(s) == {s, Rev(s)}
RECURSIVE Combine(_)
Combine(rs) == IF rs = <<>> THEN {<<>>} ELSE {<<o>> \o r : o \in Orders(Head(rs)), r \in Combine(Tail(rs))}
RECURSIVE Push(_, _)
Push(qs, a) == IF qs = <<>> THEN [x |-> a, qs |-> <<>>]
               ELSE LET r == Push(Tail(qs), Executed(Head(qs), a)) IN [x |-> r.x, qs |-> <<Advance(Head(qs), a)>> \o r.qs]
Same(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : FEq(u[i], v[i])
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "layout" -> [st |-> s, v |-> FirstBad([i \in DOMAIN e.inner |-> <<"unchanged " \o e.inner[i][1], e.inner[i] = e.outer[i]>>], 1)]
    [] e.ev = "reset" -> OK([cand |-> Combine(e.resets)])
    [] e.ev = "state" -> [st |-> s, v |-> IF Same(e.inner, e.outer) THEN "ok" ELSE "state passes unchanged"]
    [] e.ev = "step" ->
         IF Len(e.got) # 1 THEN BAD(s, "one action per step reaches the system")
         ELSE LET nxt == {Push(qs, e.a) : qs \in s.cand}
                  good == {r \in nxt : Same(r.x, e.got[1])} IN
              [st |-> [s EXCEPT !.cand = {r.qs : r \in good}],
               v |-> IF good # {} THEN "ok" ELSE "the action of d steps before is executed"]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
