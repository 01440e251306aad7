---------------------------- MODULE MCObservation ----------------------------
(* Design: every filter of every system reached by wrappers that append and     *)
(* remove states shows the labelled quantity; the announced reference is the     *)
(* one rewarded next, over all episodes with resets.                             *)
EXTENDS Observation, FiniteSets, TLC
CONSTANTS Base, Extra, MaxLen, MaxT, Refs
Perms(S) == UNION {{f \in [1..n -> S] : \A i, j \in 1..n : i # j => f[i] # f[j]} : n \in 0..Cardinality(S)}
VARIABLES names, filter, phase, gen, obs, rewarded, announced, t
vars == <<names, filter, phase, gen, obs, rewarded, announced, t>>
(* the value of the quantity with label n at time t *)
Val(n) == <<n, t>>
Lay == [names |-> names, limits |-> [i \in DOMAIN names |-> <<"lim", names[i]>>], nominal |-> [i \in DOMAIN names |-> <<"nom", names[i]>>],
        low |-> [i \in DOMAIN names |-> <<"lo", names[i]>>], high |-> [i \in DOMAIN names |-> <<"hi", names[i]>>]]
State == [i \in DOMAIN names |-> Val(names[i])]
Init == names = Base /\ filter = <<>> /\ phase = "build" /\ gen = GenFresh(0) /\ obs = <<>> /\ rewarded = 0 /\ announced = 0 /\ t = 0
Append1 == /\ phase = "build" /\ Len(names) < MaxLen
           /\ \E n \in Extra : (\A i \in DOMAIN names : names[i] # n) /\ names' = Append(names, n)
           /\ UNCHANGED <<filter, phase, gen, obs, rewarded, announced, t>>
Remove1 == /\ phase = "build" /\ Len(names) > 1
           /\ \E i \in DOMAIN names : names' = [k \in 1..(Len(names) - 1) |-> IF k < i THEN names[k] ELSE names[k + 1]]
           /\ UNCHANGED <<filter, phase, gen, obs, rewarded, announced, t>>
Choose1 == /\ phase = "build" /\ phase' = "ready"
           /\ \E f \in Perms({names[i] : i \in DOMAIN names}) : filter' = f
           /\ UNCHANGED <<names, gen, obs, rewarded, announced, t>>
Reset == /\ phase # "build" /\ t < MaxT /\ phase' = "run" /\ t' = t + 1
         /\ \E r, n \in Refs : gen' = Announce(GenFresh(r), n) /\ announced' = n /\ rewarded' = r
         /\ obs' = Select([i \in DOMAIN names |-> <<names[i], t + 1>>], Filter(names, filter))
         /\ UNCHANGED <<names, filter>>
StepEnv == /\ phase = "run" /\ t < MaxT /\ t' = t + 1
           /\ rewarded' = Take(gen).now
           /\ \E n \in Refs : gen' = Announce(Take(gen), n) /\ announced' = n
           /\ obs' = Select([i \in DOMAIN names |-> <<names[i], t + 1>>], Filter(names, filter))
           /\ phase' \in {"run", "ready"}
           /\ UNCHANGED <<names, filter>>
Next == Append1 \/ Remove1 \/ Choose1 \/ Reset \/ StepEnv
Spec == Init /\ [][Next]_vars
Labels == LET s == Shown(Lay, filter) IN
  (phase # "build" /\ obs # <<>>) =>
    /\ Len(obs) = Len(s.names)
    /\ \A k \in DOMAIN obs : obs[k] = Val(s.names[k]) /\ s.limits[k] = <<"lim", s.names[k]>> /\ s.nominal[k] = <<"nom", s.names[k]>>
                             /\ s.low[k] = <<"lo", s.names[k]>> /\ s.high[k] = <<"hi", s.names[k]>>
Order == phase # "build" => (Shown(Lay, filter).names = IF filter = <<>> THEN names ELSE filter)
NextRewarded == [][StepEnv => rewarded' = announced]_vars
SmallBase == <<"a", "b">>
=============================================================================
