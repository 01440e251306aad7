----------------------------- MODULE MCComposed -----------------------------
(* Design check: a switched reference over parts that number their own        *)
(* restarts and values; episodes of the environment begin at any time.         *)
EXTENDS Composed
CONSTANTS Parts, Usable, Range, MaxT
SmallRange == <<1, 3>>
VARIABLES w, starts, val, out, ref, t, pending, log
vars == <<w, starts, val, out, ref, t, pending, log>>
(* val[i]: last value of part i; a started part continues from the value it is given *)
Init == w = Started(1) /\ starts = [i \in Parts |-> 0] /\ val = [i \in Parts |-> 0] /\ out = 0 /\ ref = 0 /\ t = 0 /\ pending = FALSE /\ log = <<>>
Start(i, from) == /\ i \in Usable /\ starts' = [starts EXCEPT ![i] = @ + 1] /\ val' = [val EXCEPT ![i] = from + 1] /\ out' = from + 1 /\ w' = Started(i)
Reset == \E i \in Parts : Start(i, 0) /\ ref' = 0 /\ pending' = TRUE /\ log' = <<>>
GetRef == pending /\ ref' = val[w.active] /\ pending' = FALSE /\ UNCHANGED <<w, starts, val, out, log>>
Observe == /\ ~pending /\ t > 0 /\ pending' = TRUE /\ UNCHANGED ref
           /\ \/ /\ MayContinue(w.u, Range) /\ w' = Shown(w) /\ val' = [val EXCEPT ![w.active] = @ + 1] /\ out' = val[w.active] + 1 /\ UNCHANGED <<starts, log>>
              \/ /\ MayRelieve(w.u, Range) /\ (\E i \in Parts : Start(i, ref)) /\ log' = Append(log, w.u)
Next == t < MaxT /\ t' = t + 1 /\ (Reset \/ (t > 0 /\ GetRef) \/ Observe)
Spec == Init /\ [][Next]_vars
OnlyUsable == t > 0 => w.active \in Usable
IsActive == t > 0 => out = val[w.active]
InRange == \A k \in DOMAIN log : Range[1] <= log[k] /\ log[k] <= Range[2]
Bounded == w.u <= Range[2]
(* the reference continues over the hand-over: no part starts from anything but the last reference *)
Continuous == [][~pending /\ pending' /\ t > 0 => (out' = ref + 1 \/ out' = 1)]_vars
=============================================================================
