------------------------------ MODULE History ------------------------------
(* What an environment's answers may depend on (C03, C04, C05).  An instance   *)
(* is a record [cfg, seed, ep, calls, acts]:                                   *)
(*   seed    of the last seeded reset ("none" before), ep  resets since then   *)
(*   calls   all calls since the last seeded reset (or since construction)     *)
(*   acts    actions since the last reset                                      *)
EXTENDS Integers, Sequences
NewInst(cfg) == [cfg |-> cfg, seed |-> "none", ep |-> 0, calls |-> <<>>, acts |-> <<>>, fresh |-> TRUE]
ResetInst(i, seed) ==
  IF seed = "none" THEN [i EXCEPT !.ep = @ + 1, !.calls = Append(@, "reset"), !.acts = <<>>, !.fresh = FALSE]
  ELSE [i EXCEPT !.seed = seed, !.ep = 1, !.calls = <<>>, !.acts = <<>>, !.fresh = TRUE]
StepInst(i, a) == [i EXCEPT !.calls = Append(@, a), !.acts = Append(@, a)]
(* keys: equal keys, equal answers *)
SeedKey(i) == <<"seed", i.cfg, i.seed, i.calls>>                 \* C03: everything since the seeded reset
EpisodeKey(i) == <<"episode", i.cfg, i.seed, i.ep>>              \* C03: randomness drawn at the reset of the ep-th episode
ReferenceKey(i) == <<"reference", i.cfg, i.seed, i.ep, Len(i.acts)>>
HistoryKey(i, seeded) == <<"history", i.cfg, IF seeded THEN i.seed ELSE "any", IF seeded THEN i.ep ELSE 0, i.acts>>   \* C05
OwnKey(i) == <<"own", i.cfg, i.seed, i.ep, i.calls>>             \* C04: the instance's own calls only
=============================================================================
