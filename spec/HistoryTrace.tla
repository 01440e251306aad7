---------------------------- MODULE HistoryTrace ----------------------------
(* Trace specification of C03, C04, C05: answers are functions of the keys of  *)
(* module History.  Events (id: instance):                                     *)
(*  "new" id cfg, d;  "reset" id seed d [init] [ref];  "step" id a d [ref];    *)
(*  "look" id d (attributes read, no change);  "seeds": different seeds differ *)
(*  d: digest of everything the call returned and of all reported attributes   *)
(* mode: "seed" | "history" | "own"; det: no random part, unseeded resets count *)
EXTENDS TraceBase, History
Init0 == [inst |-> <<>>, memo |-> <<>>, mode |-> "seed", det |-> FALSE, firsts |-> {}]
Inst(st, id) == st.inst[id]
(* st.memo is a function from keys to digests *)
Judge(memo, key, d) == IF key \in DOMAIN memo THEN memo[key] = d ELSE TRUE
Store(memo, key, d) == IF key \in DOMAIN memo THEN memo ELSE [k \in DOMAIN memo \cup {key} |-> IF k = key THEN d ELSE memo[k]]
RECURSIVE Remember(_, _, _)
Remember(memo, ks, n) == IF n > Len(ks) THEN memo ELSE Remember(Store(memo, ks[n].key, ks[n].d), ks, n + 1)
RECURSIVE Verdict(_, _, _)
Verdict(memo, ks, n) == IF n > Len(ks) THEN "ok" ELSE IF Judge(memo, ks[n].key, ks[n].d) THEN Verdict(memo, ks, n + 1) ELSE ks[n].clause
Answer(st, id, i, ks, firsts) ==
  [st |-> [st EXCEPT !.inst = [k \in DOMAIN st.inst \cup {id} |-> IF k = id THEN i ELSE st.inst[k]], !.memo = Remember(st.memo, ks, 1), !.firsts = firsts],
   v |-> Verdict(st.memo, ks, 1)]
K(key, d, clause) == [key |-> key, d |-> d, clause |-> clause]
Keys(st, i, e, kind) ==
  CASE st.mode = "seed" ->
         (IF i.seed = "none" THEN <<>> ELSE << K(SeedKey(i), e.d, "equal seed and equal calls give equal answers (" \o kind \o ")") >>)
         \o (IF i.seed # "none" /\ Has(e, "init") THEN << K(EpisodeKey(i), e.init, "randomness drawn at a reset depends on seed and number of the episode only") >> ELSE <<>>)
         \o (IF i.seed # "none" /\ Has(e, "ref") THEN << K(ReferenceKey(i), e.ref, "the reference of an episode depends on seed and number of the episode only") >> ELSE <<>>)
    [] st.mode = "history" ->
         IF kind = "new" \/ kind = "look" \/ i.ep = 0 THEN <<>>
         ELSE IF st.det THEN << K(HistoryKey(i, FALSE), e.d, "what preceded the reset has no influence (" \o kind \o ")") >>
         ELSE IF i.seed # "none" /\ i.ep = 1 THEN << K(HistoryKey(i, TRUE), e.d, "what preceded the reset has no influence (" \o kind \o ")") >>
         ELSE <<>>
    [] st.mode = "own" -> << K(<<kind, OwnKey(i)>>, e.d, "other instances have no influence (" \o kind \o ")") >>
Step(st, e) ==
  CASE e.ev = "exc" -> BAD(st, "unexpected exception: " \o e.msg)
    [] e.ev = "mode" -> OK([st EXCEPT !.mode = e.mode, !.det = e.det])
    [] e.ev = "new" -> LET i == NewInst(e.cfg) IN Answer(st, e.id, i, Keys(st, i, e, "new"), st.firsts)
    [] e.ev = "reset" ->
       LET i == ResetInst(Inst(st, e.id), e.seed) IN
       Answer(st, e.id, i, Keys(st, i, e, "reset"), IF e.seed = "none" THEN st.firsts ELSE st.firsts \cup {<<i.cfg, e.seed, e.d>>})
    [] e.ev = "step" -> LET i == StepInst(Inst(st, e.id), e.a) IN Answer(st, e.id, i, Keys(st, i, e, "step"), st.firsts)
    [] e.ev = "look" -> LET i == Inst(st, e.id) IN Answer(st, e.id, i, Keys(st, i, e, "look"), st.firsts)
    [] e.ev = "seeds" ->
       [st |-> st, v |-> FirstBad(<< <<"different seeds give different random streams",
            \A x \in st.firsts, y \in st.firsts : (x[1] = y[1] /\ x[2] # y[2]) => x[3] # y[3]>> >>, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
