----------------------------- MODULE MCControl -----------------------------
(* Design check of the cascade on a small grid (integers stay exact): a PI/PID *)
(* speed loop over a PI current loop, saturated at both stages, with resets at *)
(* any time.                                                                   *)
EXTENDS Control, FiniteSets, TLC
CONSTANTS Errs, Depth, Kinds, ClipKinds
NegErrs == {-3, -1, 0, 2}
BigErrs == {-3, -2, -1, 0, 1, 3}
VARIABLES kind, rng, mem, out, raw, flags, n, lastE
vars == <<kind, rng, mem, out, raw, flags, n, lastE>>
Range(k) == [kind |-> k, lim |-> <<4, 4, 2>>, lo |-> <<-4, -4, -2>>, hi |-> <<4, 4, 2>>]
G == [p |-> <<1, 2, 1>>, i |-> <<1, 1, 1>>, d |-> <<1, 1, 2>>]
Dim(k) == IF k = "comb" THEN 3 ELSE 2
Cut(v, k) == SubSeq(v, 1, Dim(k))
GK(k) == [p |-> Cut(G.p, k), i |-> Cut(G.i, k), d |-> Cut(G.d, k)]
Flags(r, v, c) == [k \in DOMAIN v |-> ~FEq(v[k], c[k])]
Init == /\ kind \in Kinds /\ rng \in ClipKinds /\ mem = Mem0(Dim(rng)) /\ n = 0
        /\ out = Zeros(Dim(rng)) /\ raw = out /\ flags = [k \in 1..Dim(rng) |-> FALSE] /\ lastE = Zeros(Dim(rng))
Cycle(e) == /\ n < Depth
            /\ LET u == Law(kind, GK(rng), 1, mem, e)
                   c == ClipTo(Range(rng), u)
                   f == Flags(rng, u, c)
               IN /\ raw' = u /\ out' = c /\ flags' = f /\ lastE' = e
                  /\ mem' = Remember([mem EXCEPT !.z = IF HasI(kind) THEN Integrate(@, 1, e, f) ELSE @], e)
            /\ n' = n + 1 /\ UNCHANGED <<kind, rng>>
Reset == /\ n > 0 /\ mem' = Mem0(Dim(rng)) /\ out' = Zeros(Dim(rng)) /\ raw' = Zeros(Dim(rng)) /\ lastE' = Zeros(Dim(rng))
         /\ flags' = [k \in 1..Dim(rng) |-> FALSE] /\ n' = 0 /\ UNCHANGED <<kind, rng>>
Vecs(k) == IF Dim(k) = 2 THEN {<<a, b>> : a \in Errs, b \in Errs} ELSE {<<a, b, c>> : a \in Errs, b \in Errs, c \in Errs}
Next == (\E e \in Vecs(rng) : Cycle(e)) \/ Reset
Spec == Init /\ [][Next]_vars
(* saturation *)
Within == InRange(Range(rng), out, "1e-9")
UnchangedInside == InRange(Range(rng), raw, 0) => NearV(out, raw)
Idempotent == NearV(ClipTo(Range(rng), out), out)
(* jointly clipped components keep their ratio and sign *)
Direction == rng # "abs" => /\ Near(out[1] ** raw[2], out[2] ** raw[1])
                            /\ \A k \in 1..2 : (FSign(out[k]) = FSign(raw[k]))
(* the flags agree with the margin-based test used by the conformance check *)
FlagsAgree == FlagsOk(ShouldClip(Range(rng), raw), flags)
(* a saturated path never winds up: the integrator moves exactly on unclipped paths *)
NoWindup == [][n' = n + 1 => \A k \in DOMAIN mem.z :
                 FEq(mem'.z[k], mem.z[k]) \/ (HasI(kind) /\ ~flags'[k] /\ FEq(mem'.z[k] -- mem.z[k], lastE'[k]))]_vars
Integrates == [][n' = n + 1 /\ HasI(kind) => \A k \in DOMAIN mem.z : ~flags'[k] => FEq(mem'.z[k], mem.z[k] ++ lastE'[k])]_vars
(* after a reset nothing is left of the past *)
Fresh == n = 0 => mem = Mem0(Dim(rng))
(* without memory of the past the law is proportional (P, PI after a reset; the PID has its first difference) *)
FirstCycle == (n = 1 /\ kind \in {"P", "PI"}) => \A k \in DOMAIN raw : FEq(raw[k], GK(rng).p[k] ** lastE[k])
=============================================================================
