------------------------------ MODULE Loads ------------------------------
(* Mechanical loads (C18). p = [a, b, c, j] with j the total inertia.      *)
EXTENDS Flt
TauDecay == "0.001"                \* the constant torque is reached when the rotor would stop within 1 ms
OmegaLin(p) == (p.a // p.j) ** TauDecay
ConstPart(p, w) == IF OmegaLin(p) \prec FAbs(w) THEN FSign(w) ** p.a ELSE (p.j // TauDecay) ** w
ConstSlope(p, w) == IF OmegaLin(p) \prec FAbs(w) THEN 0 ELSE p.j // TauDecay
StaticTorque(p, w) == ConstPart(p, w) ++ (p.b ** w) ++ (p.c ** w ** FAbs(w))
StaticSlope(p, w) == ConstSlope(p, w) ++ p.b ++ (2 ** p.c ** FAbs(w))
PolyOde(p, w, torque) == (torque -- StaticTorque(p, w)) // p.j
PolyDw(p, w) == FNeg(StaticSlope(p, w) // p.j)
PolyDt(p) == 1 // p.j

(* prescribed speeds *)
Profile(f, t) ==
  CASE f.kind = "sin" -> (f.amp ** FSin(TwoPi ** f.freq ** t)) ++ f.off
    [] f.kind = "ramp" -> (f.amp ** t) ++ f.off
    [] f.kind = "step" -> IF t \prec f.freq THEN f.off ELSE f.off ++ f.amp
ExternalOde(f, tau, t, w) == (Profile(f, t ++ tau) -- w) // tau
(* Ornstein-Uhlenbeck without noise *)
OuOde(o, w) == Clip(o.theta ** (o.mu -- w) ** o.tau, (o.lo -- w) // o.tau, (o.hi -- w) // o.tau)
=============================================================================
