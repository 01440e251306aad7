--------------------------- MODULE ObservationTrace ---------------------------
(* Conformance of observations (C15).                                           *)
(*  env    sys (layout of the outermost physical system), filter, shown (layout   *)
(*         the environment reports), ref (names, idx: their positions in a state), *)
(*         rspace (low, high), onequadrant                                         *)
(*  reset / step   x, ref (what callbacks received), obs, refobs (returned),       *)
(*         rref (reference the reward function received), rx (state it received),   *)
(*         member (observation_space.contains)                                      *)
(*  look   a state observer asked for states and references by name               *)
(*  after  obs, refobs: the arrays returned before, looked at again                 *)
EXTENDS TraceBase, Observation
Init0 == [is |-> <<>>]
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : FEq(a[i], b[i])
Inside(x, lo, hi) == Len(x) = Len(lo) /\ \A i \in DOMAIN x : (lo[i] \preceq x[i]) /\ (x[i] \preceq hi[i])
WithinLimits(x) == \A i \in DOMAIN x : (("-1.0") \preceq x[i]) /\ (x[i] \preceq 1)
(* states that one-quadrant converters promise to be non-negative *)
Current == {"i", "i_a", "i_e", "torque"}
OnlyCurrents(s, x) == \A i \in DOMAIN x : ((s.low[i] \preceq x[i]) /\ (x[i] \preceq s.high[i])) \/ (s.names[i] \in Current /\ FLt(x[i], 0))
Member(s, e) == Inside(e.obs, s.low, s.high) /\ Inside(e.refobs, s.rlow, s.rhigh)
Seen(s, e) ==
  << <<"the observation is the filtered state", Same(e.obs, Select(e.x, s.is))>>,
     <<"observation_space.contains agrees with the bounds", e.member = Member(s, e)>>,
     <<"the reference observation is a member of its space", Inside(e.refobs, s.rlow, s.rhigh)>> >>
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "env" ->
         LET w == Shown(e.sys, e.filter) IN
         [st |-> [is |-> Filter(e.sys.names, e.filter), low |-> e.shown.low, high |-> e.shown.high, names |-> w.names, one |-> e.onequadrant,
                  rlow |-> e.rspace.low, rhigh |-> e.rspace.high, ridx |-> e.ridx, next |-> <<>>, last |-> <<>>],
          v |-> FirstBad(<< <<"state names of the observation", e.shown.names = w.names>>,
                            <<"limits of the observation", Same(e.shown.limits, w.limits)>>,
                            <<"nominal values of the observation", Same(e.shown.nominal, w.nominal)>>,
                            <<"observation space", Same(e.shown.low, w.low) /\ Same(e.shown.high, w.high)>>,
                            <<"dtype and structure of the observation space", e.struct>>,
                            <<"one bound per referenced quantity", e.ridx = <<>> \/ Len(e.ridx) = Len(e.rspace.low)>> >>, 1)]
    [] e.ev \in {"reset", "step"} ->
         LET out == WithinLimits(e.obs) /\ ~Inside(e.obs, s.low, s.high)
             known == out /\ s.one /\ OnlyCurrents(s, e.obs)
             n == [s EXCEPT !.next = e.refobs, !.last = e.obs] IN
         [st |-> n,
          v |-> FirstBad(Seen(s, e) \o
                (IF e.ev = "reset" THEN << >>
                 ELSE << <<"the reference shown before is the one rewarded", s.ridx = <<>> \/ Same(s.next, Select(e.rref, s.ridx))>>,
                         <<"callbacks receive the rewarded reference", Same(e.ref, e.rref)>>,
                         <<"the rewarded state is the observed one", Same(e.x, e.rx)>> >>) \o
                << <<"an observation within the limits is a member of the observation space", ~out \/ known>> >>, 1),
          note |-> IF known THEN "current of a one-quadrant converter below zero" ELSE "ok"]
    [] e.ev = "after" -> [st |-> s, v |-> FirstBad(<< <<"returned observations do not change later", Same(e.obs, s.last) /\ Same(e.refobs, s.next)>> >>, 1)]
    [] e.ev = "look" ->
         LET want(k) == IF e.refs[k] = "" THEN s.last[Where(s.names, e.asked[k])] ELSE s.next[Where(e.refnames, e.refs[k])] IN
         [st |-> s, v |-> FirstBad(<< <<"a state observer names what it returns", e.named>>,
                                      <<"a state observer returns the current value of the named state or reference", \A k \in DOMAIN e.asked : FEq(want(k), e.vals[k])>>,
                                      <<"a state observer refuses unknown names", e.refused>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
