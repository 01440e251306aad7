----------------------------- MODULE References -----------------------------
(* References of one state: the margin a generator keeps, the sub-episodes   *)
(* it strings together, and the waveform inside a sub-episode.               *)
EXTENDS Flt
(* configured margin -> [low, high] of the normalised reference               *)
(* lm.kind: "none" (nominal value / limit), "factor" (x), "pair" (x, y)        *)
Margin(lm, nominal, limit, low, high) ==
  CASE lm.kind = "none"   -> [lo |-> (nominal // limit) ** low, hi |-> (nominal // limit) ** high]
    [] lm.kind = "factor" -> [lo |-> lm.x ** low, hi |-> lm.x ** high]
    [] OTHER              -> [lo |-> lm.x ** low, hi |-> lm.y ** high]
(* what the margin leaves of the configured amplitude and offset              *)
AmpRange(a, m)       == [lo |-> Clip(a.lo, 0, (m.hi -- m.lo) // 2), hi |-> Clip(a.hi, 0, (m.hi -- m.lo) // 2)]
OffRange(o, amp, m)  == [lo |-> Clip(Clip(o.lo, m.lo, m.hi), m.lo ++ amp, m.hi -- amp),
                         hi |-> Clip(Clip(o.hi, m.lo, m.hi), m.lo ++ amp, m.hi -- amp)]
InRange(x, r) == ((r.lo -- "1e-9") \preceq x) /\ (x \preceq (r.hi ++ "1e-9"))
(* waveforms of unit amplitude as functions of the position y in the period    *)
(* [0, 1); a triangle rises on the fraction w of its period                     *)
Frac(y) == y -- FFloor(y)
Rise(y, w) == IF y \prec w THEN ((2 ** y) // w) -- 1 ELSE ((1 ++ w) -- (2 ** y)) // (1 -- w)
Wave(kind, y, w) == CASE kind = "sin"  -> FSin(TwoPi ** y)
                      [] kind = "saw"  -> (2 ** y) -- 1
                      [] kind = "tri"  -> Rise(y, w)
                      [] kind = "step" -> IF y \prec w THEN -1 ELSE 1
(* at a corner the position decides nothing: both neighbours are admitted       *)
Corner(kind, y, w) == CASE kind = "sin" -> FALSE
                        [] kind = "saw" -> (y \prec "1e-6") \/ ("0.999999" \prec y)
                        [] OTHER -> (y \prec "1e-6") \/ ("0.999999" \prec y) \/ (FAbs(y -- w) \prec "1e-6")
(* sample k (from 0) of a sub-episode: p = [kind, f, tau, phase, w, amp, off]    *)
Pos(p, k) == Frac((p.f ** (k ** p.tau)) ++ p.phase)
Sample(p, k, m) == Clip((p.amp ** Wave(p.kind, Pos(p, k), p.w)) ++ p.off, m.lo, m.hi)
Follows(p, k, m, x, tol) == Corner(p.kind, Pos(p, k), p.w) \/ FClose(x, Sample(p, k, m), 0, tol)

(* ---- the sub-episode machine over abstract samples ------------------------ *)
(* g = [len, k, no]: length of the running sub-episode, samples shown, number   *)
Start(len, no) == [len |-> len, k |-> 1, no |-> no]
NextSample(g, len) == IF g.k >= g.len THEN Start(len, g.no + 1) ELSE [g EXCEPT !.k = @ + 1]
(* ---- random walks ----------------------------------------------------------*)
Walk(x, dx, m) == Clip(x ++ dx, m.lo, m.hi)
(* ---- ramping of the margin ---------------------------------------------------*)
Ramp(m, step, max) == [lo |-> FMax(m.lo -- step, max.lo), hi |-> FMin(m.hi ++ step, max.hi)]
=============================================================================
