------------------------------- MODULE Flt -------------------------------
(* Real (IEEE binary64) arithmetic for TLC.  A number is a TLA+ integer or *)
(* a string with its decimal form; TLC evaluates the operators below with  *)
(* the Java class tlc2.module.Flt (spec/java/Flt.java).                    *)
EXTENDS Integers, Sequences

NoDef == CHOOSE x \in {} : TRUE
FAdd(a, b) == NoDef      FSub(a, b) == NoDef      FMul(a, b) == NoDef
FDiv(a, b) == NoDef      FPow(a, b) == NoDef      FMod(a, b) == NoDef   \* sign of the divisor
FNeg(a) == NoDef         FAbs(a) == NoDef         FFloor(a) == NoDef
FRint(a) == NoDef        FSin(a) == NoDef         FCos(a) == NoDef
FExp(a) == NoDef         FLog(a) == NoDef         FSqrt(a) == NoDef
FAtan2(a, b) == NoDef    FMin(a, b) == NoDef      FMax(a, b) == NoDef
FLt(a, b) == NoDef       FLe(a, b) == NoDef       FEq(a, b) == NoDef
FFinite(a) == NoDef      FInt(a) == NoDef         \* nearest integer
FClose(a, b, rtol, atol) == NoDef

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
a \prec b == FLt(a, b)
a \preceq b == FLe(a, b)

Pi == "3.141592653589793"
TwoPi == "6.283185307179586"
Sq(a) == FMul(a, a)
FSign(a) == IF FLt(a, 0) THEN -1 ELSE IF FLt(0, a) THEN 1 ELSE 0
Clip(x, lo, hi) == FMin(FMax(x, lo), hi)

(* default comparison of a model value with a recorded one *)
Near(a, b) == FClose(a, b, "1e-9", "1e-11")
NearTol(a, b, tol) == FClose(a, b, tol, tol)
NearV(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Near(u[i], v[i])
NearTolV(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : NearTol(u[i], v[i], tol)

(* vectors are sequences of numbers; (VAdd .. MatVec, Eager also have Java bodies) *)
RECURSIVE SumUpTo(_, _)
SumUpTo(v, n) == IF n = 0 THEN 0 ELSE FAdd(SumUpTo(v, n - 1), v[n])
FSum(v) == SumUpTo(v, Len(v))
VAdd(u, v) == [i \in DOMAIN u |-> FAdd(u[i], v[i])]
VSub(u, v) == [i \in DOMAIN u |-> FSub(u[i], v[i])]
VMul(u, v) == [i \in DOMAIN u |-> FMul(u[i], v[i])]
VDiv(u, v) == [i \in DOMAIN u |-> FDiv(u[i], v[i])]
VScale(k, v) == [i \in DOMAIN v |-> FMul(k, v[i])]
FDot(u, v) == FSum(VMul(u, v))
MatVec(M, v) == [i \in DOMAIN M |-> FDot(M[i], v)]
Zeros(n) == [i \in 1..n |-> 0]

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE SumInt(_)
SumInt(v) == IF v = <<>> THEN 0 ELSE Head(v) + SumInt(Tail(v))
Last1(s) == s[Len(s)]
Eager(v) == v
=============================================================================
