----------------------------- MODULE Supplies -----------------------------
(* Voltage supplies (C19).                                                  *)
EXTENDS Flt
(* RC: C du/dt = (u0 - u)/R - i *)
RcDu(s, u, i) == (((s.u0 -- u) // s.R) -- i) // s.C
RcEuler(s, u, i, dt) == u ++ (dt ** RcDu(s, u, i))
RcExact(s, u, i, dt) == LET ue == s.u0 -- (s.R ** i) IN ue ++ ((u -- ue) ** FExp(FNeg(dt // (s.R ** s.C))))
AcAmp(kind, un) == IF kind = "ac1" THEN un ** FSqrt(2) ELSE un ** FSqrt(2 // 3)
AcPhase(i) == (i ** TwoPi) // 3
AcU(s, phi, t) == [i \in 1..(IF s.kind = "ac1" THEN 1 ELSE 3) |->
                    AcAmp(s.kind, s.u0) ** FSin((TwoPi ** s.f ** t) ++ phi ++ AcPhase(i - 1))]
=============================================================================
