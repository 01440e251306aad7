------------------------------ MODULE Solvers ------------------------------
(* Numerical integration (C20). A system is a record                        *)
(*   kind "lin"    y' = A y + b u,      u an input set by the caller         *)
(*   kind "forced" y' = A y + b (u + sin(w t))                                *)
(*   kind "vdp"    y1' = y2,  y2' = m (1 - y1^2) y2 - y1 + u                  *)
EXTENDS Flt
F(s, t, y, u) ==
  CASE s.kind = "lin" -> VAdd(MatVec(s.A, y), VScale(u, s.b))
    [] s.kind = "forced" -> VAdd(MatVec(s.A, y), VScale(u ++ FSin(s.w ** t), s.b))
    [] s.kind = "vdp" -> <<y[2], ((s.m ** (1 -- Sq(y[1])) ** y[2]) -- y[1]) ++ u>>
RECURSIVE EulerN(_, _, _, _, _, _)
EulerN(s, t, y, u, h, n) == IF n = 0 THEN y ELSE EulerN(s, t ++ h, Eager(VAdd(y, VScale(h, F(s, t, y, u)))), u, h, n - 1)
Euler(s, t0, y, u, t1, n) == EulerN(s, t0, y, u, (t1 -- t0) // n, n)
Rk4Step(s, t, y, u, h) ==
  LET k1 == Eager(F(s, t, y, u))
      k2 == Eager(F(s, t ++ (h // 2), VAdd(y, VScale(h // 2, k1)), u))
      k3 == Eager(F(s, t ++ (h // 2), VAdd(y, VScale(h // 2, k2)), u))
      k4 == Eager(F(s, t ++ h, VAdd(y, VScale(h, k3)), u))
  IN VAdd(y, VScale(h // 6, VAdd(VAdd(k1, VScale(2, k2)), VAdd(VScale(2, k3), k4))))
RECURSIVE Rk4N(_, _, _, _, _, _)
Rk4N(s, t, y, u, h, n) == IF n = 0 THEN y ELSE Rk4N(s, t ++ h, Eager(Rk4Step(s, t, y, u, h)), u, h, n - 1)
Rk4(s, t0, y, u, t1, n) == Rk4N(s, t0, y, u, (t1 -- t0) // n, n)
=============================================================================
