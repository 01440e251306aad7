----------------------------- MODULE MCHistory -----------------------------
(* Design model of C03 and C05: two copies of an abstract environment whose    *)
(* components keep memory (switching state, delayed action, clock, charge) and *)
(* random streams.  Each copy goes through a history of its own; then both     *)
(* receive the same seeded reset and the same calls.  Their answers must be    *)
(* equal.  Leaky: components forgotten at a reset (none in the design).        *)
EXTENDS History, FiniteSets, TLC, Json
CONSTANTS Pre, Post, Acts, Seeds, Leaky, EmitLen
VARIABLES e, h, phase, tail
vars == <<e, h, phase, tail>>
Mem0 == [sw |-> "off", delay |-> "off", clock |-> 0, charge |-> 0]
(* stream: [seed, restart] identifies the generator, drawn counts its draws *)
Fresh(id) == [mem |-> Mem0, st |-> [seed |-> <<"entropy", id>>, ep |-> 0, drawn |-> 0], init |-> <<>>, out |-> <<>>, i |-> NewInst("cfg")]
Draw(s) == <<s.st.seed, s.st.ep, s.st.drawn>>
Keep(m, old) == [n \in DOMAIN m |-> IF n \in Leaky THEN old[n] ELSE m[n]]
DoReset(s, seed) ==
  LET st == IF seed = "none" THEN [s.st EXCEPT !.ep = @ + 1, !.drawn = 0]
            ELSE [seed |-> seed, ep |-> 1, drawn |-> IF "stream" \in Leaky THEN s.st.drawn ELSE 0]
      r == [s EXCEPT !.mem = Keep(Mem0, s.mem), !.st = st] IN
  [r EXCEPT !.st.drawn = @ + 1, !.init = Draw(r), !.out = <<"reset", r.mem, Draw(r)>>, !.i = ResetInst(s.i, seed)]
DoStep(s, a) ==
  LET m == [sw |-> s.mem.delay, delay |-> a, clock |-> s.mem.clock + 1, charge |-> s.mem.charge + (IF s.mem.sw = "off" THEN 0 ELSE 1)] IN
  [s EXCEPT !.mem = m, !.st.drawn = @ + 1, !.out = <<"step", m, Draw(s)>>, !.i = StepInst(s.i, a)]
Call(s, c) == IF c \in Acts THEN DoStep(s, c) ELSE DoReset(s, IF c = "reset" THEN "none" ELSE c)
Calls == Acts \cup Seeds \cup {"reset"}
Init == e = <<Fresh(1), Fresh(2)>> /\ h = <<<<>>, <<>>>> /\ phase = "pre" /\ tail = <<>>
Apart == /\ phase = "pre"
         /\ \E k \in {1, 2}, c \in Calls : Len(h[k]) < Pre /\ (k = 1 => h[2] = <<>>)
              /\ e' = [e EXCEPT ![k] = Call(@, c)] /\ h' = [h EXCEPT ![k] = Append(@, c)]
         /\ UNCHANGED <<phase, tail>>
Join == /\ phase = "pre" /\ \E s \in Seeds : e' = <<DoReset(e[1], s), DoReset(e[2], s)>> /\ tail' = <<s>>
        /\ phase' = "post" /\ UNCHANGED h
Together == /\ phase = "post" /\ Len(tail) <= Post
            /\ \E c \in Calls : e' = <<Call(e[1], c), Call(e[2], c)>> /\ tail' = Append(tail, c)
            /\ UNCHANGED <<h, phase>>
Next == Apart \/ Join \/ Together
Spec == Init /\ [][Next]_vars
(* C03 *)
SameAnswers == (phase = "post") => e[1].out = e[2].out
SameKeys == (phase = "post") => SeedKey(e[1].i) = SeedKey(e[2].i)
(* C03: what is drawn at the reset of an episode depends on seed and number of the episode only *)
EpisodeDraw == \A k \in {1, 2} : (e[k].i.seed # "none") => e[k].init = <<e[k].i.seed, e[k].i.ep, 0>>
(* C05: apart from the random draws an episode starts from the defined values *)
ErasedMemory == \A k \in {1, 2} : (e[k].i.ep > 0 /\ e[k].i.acts = <<>>) => e[k].mem = Mem0
(* histories for the conformance runs *)
Emit == (phase = "pre" /\ h[2] = <<>> /\ Len(h[1]) = EmitLen) => PrintT("GEN|" \o ToJson(h[1]))
GenOnly == phase = "pre" /\ h[2] = <<>>
=============================================================================
