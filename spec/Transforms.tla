----------------------------- MODULE Transforms -----------------------------
(* Three-phase transformations (C17): amplitude invariant Clarke and Park.   *)
EXTENDS Flt
Sqrt3 == "1.7320508075688772"
T23(v) == << (((2 ** v[1]) -- v[2]) -- v[3]) // 3, (v[2] -- v[3]) // Sqrt3 >>
T32(v) == << v[1], ((Sqrt3 ** v[2]) -- v[1]) // 2, FNeg((Sqrt3 ** v[2]) ++ v[1]) // 2 >>
Rot(v, e) == LET c == FCos(e)  s == FSin(e) IN << (c ** v[1]) -- (s ** v[2]), (s ** v[1]) ++ (c ** v[2]) >>
AbcToDq(v, e) == Rot(T23(v), FNeg(e))
DqToAbc(v, e) == T32(Rot(v, e))
Norm2(v) == FSqrt(Sq(v[1]) ++ Sq(v[2]))
(* the representative in (-pi, pi] *)
Wrap(e) == LET m == FMod(e, TwoPi) IN IF Pi \prec m THEN m -- TwoPi ELSE m
(* distance of two angles on the circle *)
AngleDist(a, b) == FAbs(Wrap(a -- b))
=============================================================================
