---------------------------- MODULE MCReferences ----------------------------
(* Design check: sub-episodes, a walk in them, a ramp of the margin, and a    *)
(* switch between two such generators, on small integers.                     *)
EXTENDS References, FiniteSets
CONSTANTS Lens, SuperLens, Incs, MaxT, Freq, RampStep
Lims == [lo |-> 0 - 3, hi |-> 3]
Max == [lo |-> 0 - 2, hi |-> 3]
SmallIncs == {0 - 2, 0, 1}
VARIABLES g, x, ref, m, active, sk, slen, t, ends, uses
vars == <<g, x, ref, m, active, sk, slen, t, ends, uses>>
(* x[i]: last value of generator i, g[i] its sub-episode, ref: what is rewarded now *)
I2 == 1..2
Init == /\ g = [i \in I2 |-> [len |-> 0, k |-> 0, no |-> 0]] /\ x = [i \in I2 |-> 0] /\ ref = 0
        /\ m = [lo |-> 0 - 1, hi |-> 1] /\ active = 1 /\ sk = 0 /\ slen = 0 /\ t = 0 /\ ends = <<>> /\ uses = 0
(* the walk of generator i moves by d, clipped to the margin in force *)
Move(i, d, len, fresh) ==
  /\ g' = [g EXCEPT ![i] = IF fresh THEN Start(len, @.no + 1) ELSE NextSample(@, len)]
  /\ x' = [x EXCEPT ![i] = FInt(Walk(IF fresh THEN ref ELSE @, d, m))]
  /\ ends' = IF ~fresh /\ g[i].k >= g[i].len THEN Append(ends, g[i].k) ELSE ends
Reset == \E i \in I2, n \in SuperLens, len \in Lens, d \in Incs :
  /\ active' = i /\ slen' = n /\ sk' = 0 /\ uses' = 1
  /\ ref' = 0 /\ g' = [g EXCEPT ![i] = Start(len, @.no + 1)] /\ x' = [x EXCEPT ![i] = FInt(Walk(0, d, m))]
  /\ UNCHANGED <<m, ends>>
RampM(mm) == LET r == Ramp(mm, RampStep, Max) IN [lo |-> FInt(r.lo), hi |-> FInt(r.hi)]
StepRef == /\ t > 0 /\ ref' = x[active]
           /\ \E len \in Lens, d \in Incs :
                IF sk >= slen
                THEN \E i \in I2, n \in SuperLens :
                       /\ active' = i /\ slen' = n /\ sk' = 1 /\ uses' = 1
                       /\ g' = [g EXCEPT ![i] = Start(len, @.no + 1)] /\ ends' = ends
                       /\ x' = [x EXCEPT ![i] = FInt(Walk(x[active], d, m))]
                ELSE /\ sk' = sk + 1 /\ uses' = uses + 1 /\ Move(active, d, len, FALSE) /\ UNCHANGED <<active, slen>>
           /\ m' = IF (t % Freq) = 0 THEN RampM(m) ELSE m
Next == /\ t < MaxT /\ t' = t + 1
        /\ IF t = 0 THEN Reset ELSE (StepRef \/ Reset)
Spec == Init /\ [][Next]_vars
InLimits == \A i \in I2 : x[i] >= Lims.lo /\ x[i] <= Lims.hi
InMargin == t > 0 => (x[active] >= Max.lo /\ x[active] <= Max.hi)
CompleteSubEpisodes == \A e \in DOMAIN ends : ends[e] \in Lens
SuperEpisodes == t > 0 => \E n \in SuperLens : uses <= n + 1
MarginInMax == m.lo >= Max.lo /\ m.hi <= Max.hi
NoGap == [][t > 0 /\ sk' # 0 /\ ref' = x[active] => \E d \in Incs : x'[active'] = FInt(Walk(x[active], d, m))]_vars
MarginGrows == [][m'.lo <= m.lo /\ m'.hi >= m.hi]_vars
=============================================================================
