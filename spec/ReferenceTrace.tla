--------------------------- MODULE ReferenceTrace ---------------------------
(* Conformance of the reference generators of one state (C13).               *)
(*  setup  configuration and what the generator reports about itself          *)
(*  reset  given initial reference (or "none"), reference array, observation   *)
(*  run    observations and references of the following steps                  *)
(*         wit: the parameters of each sub-episode, found by the driver; the    *)
(*         specification accepts any witness that explains every sample         *)
EXTENDS TraceBase, References
Init0 == [cfg |-> <<>>, last |-> 0, obs |-> <<>>]
T9(a, b) == FClose(a, b, "1e-9", "1e-9")
Mg(e) == Margin(e.lm, e.nominal, e.limit, e.low, e.high)
Setup(e) ==
  LET m == Mg(e) IN
  << <<"names of the referenced states", e.refnames = <<e.state>> >>,
     <<"exactly the named state is marked as referenced", \A i \in DOMAIN e.names : e.mask[i] <=> (e.names[i] = e.state)>>,
     <<"reference space is the configured margin", e.kind = "const" \/ (T9(e.space[1], m.lo) /\ T9(e.space[2], m.hi))>> >>
OnlyState(c, ref) == \A i \in DOMAIN c.names : c.names[i] = c.state \/ FEq(ref[i], 0)
AtState(c, ref) == ref[CHOOSE i \in DOMAIN c.names : c.names[i] = c.state]
ResetCl(s, e) ==
  LET c == s.cfg  r == AtState(c, e.ref)  m == Mg(c) IN
  << <<"states that are not referenced have reference 0", OnlyState(c, e.ref)>>,
     <<"initial reference", CASE c.kind = "const" -> T9(r, c.value)
                              [] e.given # "none" -> T9(r, e.given)
                              [] c.kind = "wiener" -> InRange(r, c.init)
                              [] OTHER -> FEq(r, 0)>>,
     <<"reference within the margin", c.kind = "const" \/ InRange(e.obs, m)>>,
     <<"first increment", c.kind \notin {"wiener", "laplace"} \/ FAbs(e.obs -- Clip(r, m.lo, m.hi)) \preceq (40 ** c.sigma.hi)>>,
     <<"constant value", c.kind # "const" \/ T9(e.obs, c.value)>> >>
(* ------------------------------------------------------------ sub-episodes *)
Blocks(n, L) == (n + L - 1) \div L
BlockOf(x, b, L) == SubSeq(x, (b - 1) * L + 1, IF b * L < Len(x) THEN b * L ELSE Len(x))
ParamsIn(c, w, m) ==
  /\ FClose(w.amp, Clip(w.amp, AmpRange(c.a, m).lo, AmpRange(c.a, m).hi), "1e-5", "1e-6")
  /\ FClose(w.f, Clip(w.f, c.f.lo, c.f.hi), "1e-5", 0)
  /\ LET r == OffRange(c.o, w.amp, m) IN FClose(w.off, Clip(w.off, r.lo, r.hi), 0, "1e-5")
  /\ (("-1e-9" \preceq w.w) /\ (w.w \preceq "1.000000001"))
Wavy(c) == c.kind \in {"sin", "saw", "tri", "step"}
Wit(c, w) == [kind |-> c.kind, f |-> w.f, tau |-> c.tau, phase |-> w.phase, w |-> w.w, amp |-> w.amp, off |-> w.off]
BlockFollows(c, w, m, x) == \A k \in DOMAIN x : Follows(Wit(c, w), k - 1, m, x[k], c.tol)
(* an asymmetric triangle whose shorter side holds hardly a sample does not      *)
(* reveal its parameters: nearly all increments are equal                         *)
OneSided(c, x) == LET n == Len(x) - 1  d == Eager([k \in 1..n |-> x[k + 1] -- x[k]]) IN
  c.kind = "tri" /\ \E j \in 1..n : 5 * Cardinality({k \in 1..n : FClose(d[k], d[j], 0, "1e-9")}) >= 4 * n
(* lengths of the stretches of equal values, the last one is still running     *)
Ends(x) == SelectSeq([k \in 1..(Len(x) - 1) |-> k], LAMBDA k : ~FEq(x[k], x[k + 1]))
Stretches(x) == LET en == Eager(Ends(x)) IN [j \in DOMAIN en |-> IF j = 1 THEN en[1] ELSE en[j] - en[j - 1]]
RECURSIVE MaxOf(_, _), MinOf(_, _)
MaxOf(x, n) == IF n = 1 THEN x[1] ELSE FMax(MaxOf(x, n - 1), x[n])
MinOf(x, n) == IF n = 1 THEN x[1] ELSE FMin(MinOf(x, n - 1), x[n])
Covers(x, lo, hi) == FAbs(hi -- lo) \prec "1e-6" \/ (("0.6" ** (hi -- lo)) \preceq (MaxOf(x, Len(x)) -- MinOf(x, Len(x))))
(* ------------------------------------------------------------------- walks *)
Free(x, m) == SelectSeq([k \in 1..(Len(x) - 1) |-> k],
                        LAMBDA k : ((m.lo ++ "1e-9") \prec x[k]) /\ (x[k] \prec (m.hi -- "1e-9")) /\ ((m.lo ++ "1e-9") \prec x[k + 1]) /\ (x[k + 1] \prec (m.hi -- "1e-9")))
Incr(x, m) == LET f == Eager(Free(x, m)) IN [j \in DOMAIN f |-> x[f[j] + 1] -- x[f[j]]]
Mean(v) == FSum(v) // Len(v)
Var(c, s) == IF c.kind = "wiener" THEN Sq(s) ELSE 2 ** Sq(s)
WalkCl(c, m, x) ==
  LET d == Eager(Incr(x, m))
      m2 == Mean([k \in DOMAIN d |-> Sq(d[k])])
      m1 == Mean([k \in DOMAIN d |-> FAbs(d[k])])
      fixed == FEq(c.sigma.lo, c.sigma.hi)
      ratio == Sq(m1) // m2 IN
  << <<"increments of the process are bounded by its sigma", \A k \in 1..(Len(x) - 1) : FAbs(x[k + 1] -- x[k]) \preceq ((IF c.kind = "wiener" THEN 9 ELSE 40) ** c.sigma.hi)>>,
     <<"variance of the increments", Len(d) < 1500 \/ ((("0.7" ** Var(c, c.sigma.lo)) \preceq m2) /\ (m2 \preceq ("1.4" ** Var(c, c.sigma.hi))))>>,
     <<"mean of the increments is zero", Len(d) < 1500 \/ (FAbs(Mean(d)) \preceq (7 ** FSqrt(m2 // Len(d))))>>,
     <<"distribution of the increments", Len(d) < 1500 \/ ~fixed \/ (IF c.kind = "wiener" THEN "0.59" \prec ratio ELSE ratio \prec "0.55")>> >>
BlockSigma(c, m, x) == LET d == Eager(Incr(x, m)) IN
  IF Len(d) < 200 THEN -1 ELSE FSqrt(Mean([k \in DOMAIN d |-> Sq(d[k])]) // (IF c.kind = "wiener" THEN 1 ELSE 2))
Sigmas(c, m, x) == SelectSeq(Eager([b \in 1..(Len(x) \div c.lens[1]) |-> BlockSigma(c, m, BlockOf(x, b, c.lens[1]))]), LAMBDA s : 0 \prec s)
SigmaCl(c, m, x) ==
  LET sg == Eager(Sigmas(c, m, x)) IN
  << <<"sigma of each sub-episode within its range", \A b \in DOMAIN sg : (("0.7" ** c.sigma.lo) \preceq sg[b]) /\ (sg[b] \preceq ("1.4" ** c.sigma.hi))>>,
     <<"sigma is drawn anew", ~((10 ** c.sigma.lo) \preceq c.sigma.hi) \/ Len(sg) < 8 \/ ((2 ** MinOf(sg, Len(sg))) \prec MaxOf(sg, Len(sg)))>> >>
(* -------------------------------------------------------------------- runs *)
RunCl(s, e) ==
  LET c == s.cfg  m == Mg(c)
      x == <<s.last>> \o e.obs
      n == Len(x)
      st == Eager(Stretches(x))
      vals == [j \in DOMAIN st |-> x[SumInt(SubSeq(st, 1, j))]] IN
  << <<"states that are not referenced have reference 0", FEq(e.others, 0)>>,
     <<"the reference is the value observed before", \A k \in DOMAIN e.refs : FEq(e.refs[k], x[k])>>,
     <<"reference within the margin", c.kind = "const" \/ \A k \in DOMAIN x : InRange(x[k], m)>>,
     <<"constant value", c.kind # "const" \/ \A k \in DOMAIN x : T9(x[k], c.value)>>,
     <<"parameters of the waveform within their ranges", c.mode # "wave" \/ \A b \in DOMAIN e.wit : e.wit[b].skip \/ ParamsIn(c, e.wit[b], m)>>,
     <<"the sub-episode follows its waveform", c.mode # "wave" \/ (Len(e.wit) = Blocks(n, c.lens[1]) /\ \A b \in DOMAIN e.wit : IF e.wit[b].skip THEN OneSided(c, BlockOf(x, b, c.lens[1])) ELSE BlockFollows(c, e.wit[b], m, BlockOf(x, b, c.lens[1])))>>,
     <<"length of the sub-episodes", c.mode # "lens" \/ (Len(st) > 0 /\ \A j \in DOMAIN st : c.lens[1] <= st[j] /\ st[j] <= c.lens[2])>>,
     <<"offsets within their range", c.mode # "lens" \/ \A j \in DOMAIN vals : InRange(vals[j], OffRange(c.o, 0, m))>>,
     <<"offsets cover their range", c.mode # "lens" \/ Len(vals) < 45 \/ Covers(vals, OffRange(c.o, 0, m).lo, OffRange(c.o, 0, m).hi)>>,
     <<"lengths cover their range", c.mode # "lens" \/ Len(st) < 45 \/ c.lens[2] - c.lens[1] < 5 \/ Covers(st, c.lens[1], c.lens[2] - 1)>> >>
  \o (IF c.mode = "walk" THEN WalkCl(c, m, x) \o SigmaCl(c, m, x) ELSE <<>>)
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "setup" -> [st |-> [s EXCEPT !.cfg = e], v |-> FirstBad(Setup(e), 1)]
    [] e.ev = "reset" -> [st |-> [s EXCEPT !.last = e.obs], v |-> FirstBad(ResetCl(s, e), 1)]
    [] e.ev = "run"   -> [st |-> s, v |-> FirstBad(RunCl(s, e), 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
