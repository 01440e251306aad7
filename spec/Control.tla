------------------------------ MODULE Control ------------------------------
(* Classic cascaded controllers (C25, C26, C29): the laws of the stages, the *)
(* memory they keep, and their composition.                                  *)
(*                                                                           *)
(*   reference -> [speed loop] -> [operating point] -> current loop -> action *)
(*                                                                           *)
(* A dynamic stage keeps [z |-> integrators, last |-> last errors]; its law   *)
(* is a function of the control error and this memory.  The memory advances   *)
(* once per cycle: an integrator by tau * error unless its path is clipped,   *)
(* the last error always.                                                     *)
EXTENDS Motors, Transforms

(* ---- stage laws ---------------------------------------------------------------- *)
Pick(x, idx) == [k \in DOMAIN idx |-> x[idx[k]]]
Fill(n, v) == [k \in 1..n |-> v]
HasI(kind) == kind \in {"I", "PI", "PID"}
Mem0(n) == [z |-> Zeros(n), last |-> Zeros(n)]
(* g = [p, i, d] gains per component, e the control error *)
Law(kind, g, tau, m, e) ==
  LET P == VMul(g.p, e)
      I == VMul(g.i, m.z)
      D == [k \in DOMAIN e |-> (g.d[k] ** (e[k] -- m.last[k])) // tau]
  IN CASE kind = "P" -> P
       [] kind = "I" -> I
       [] kind = "PI" -> Eager(VAdd(P, I))
       [] kind = "PID" -> Eager(VAdd(VAdd(P, I), D))
(* three-point law with a hysteresis: ties are idle *)
Three(x, r, g) == [k \in DOMAIN x |-> IF r[k] \prec (x[k] -- g.h[k]) THEN g.lo[k]
                                      ELSE IF (x[k] ++ g.h[k]) \prec r[k] THEN g.hi[k] ELSE g.idle[k]]
Integrate(z, tau, e, clipped) == Eager([k \in DOMAIN z |-> IF clipped[k] THEN z[k] ELSE z[k] ++ (tau ** e[k])])
Remember(m, e) == [m EXCEPT !.last = e]

(* ---- saturation ------------------------------------------------------------------ *)
AbsClip(v, lo, hi) == [k \in DOMAIN v |-> Clip(v[k], lo[k], hi[k])]
Length(v, lim) == FSqrt(FSum([k \in DOMAIN v |-> Sq(v[k] // lim[k])]))
SqClip(v, lim) == LET n == Length(v, lim) IN IF n \preceq 1 THEN v ELSE [k \in DOMAIN v |-> v[k] // n]
Head2(v) == SubSeq(v, 1, 2)
(* r = [kind |-> "abs"|"sq"|"comb", lim, lo, hi] *)
ClipTo(r, v) == CASE r.kind = "abs" -> AbsClip(v, r.lo, r.hi)
                  [] r.kind = "sq" -> SqClip(v, r.lim)
                  [] r.kind = "comb" -> SqClip(Head2(v), Head2(r.lim)) \o <<Clip(v[3], r.lo[3], r.hi[3])>>
InRange(r, v, tol) ==
  CASE r.kind = "abs" -> \A k \in DOMAIN v : ((r.lo[k] -- tol) \preceq v[k]) /\ (v[k] \preceq (r.hi[k] ++ tol))
    [] r.kind = "sq" -> Length(v, r.lim) \preceq (1 ++ "1e-9")
    [] r.kind = "comb" -> (Length(Head2(v), Head2(r.lim)) \preceq (1 ++ "1e-9")) /\ ((r.lo[3] -- tol) \preceq v[3]) /\ (v[3] \preceq (r.hi[3] ++ tol))
(* how far a component is from the place where it starts to be clipped (relative) *)
Excess(r, v) == CASE r.kind = "abs" -> [k \in DOMAIN v |-> FMax(v[k] -- r.hi[k], r.lo[k] -- v[k]) // FMax("1e-12", FMax(FAbs(r.lo[k]), FAbs(r.hi[k])))]
                  [] r.kind = "sq" -> LET n == Length(v, r.lim) -- 1 IN [k \in DOMAIN v |-> n]
                  [] r.kind = "comb" -> LET n == Length(Head2(v), Head2(r.lim)) -- 1 IN <<n, n,
                          FMax(v[3] -- r.hi[3], r.lo[3] -- v[3]) // FMax("1e-12", FMax(FAbs(r.lo[3]), FAbs(r.hi[3])))>>
(* a component of a jointly clipped vector that is exactly 0 is not changed by the clipping *)
ShouldClip(r, v) == LET x == Excess(r, v) IN
  [k \in DOMAIN v |-> IF (r.kind # "abs") /\ (k <= 2) /\ FEq(v[k], 0) THEN "no"
                      ELSE IF "1e-9" \prec x[k] THEN "yes" ELSE IF x[k] \prec "-1e-9" THEN "no" ELSE "any"]
FlagsOk(should, flags) == \A k \in DOMAIN should : (should[k] = "any") \/ (flags[k] = (should[k] = "yes"))

(* ---- names of the quantities of each machine ----------------------------------- *)
Currents(t) == CASE t \in {"PermExDc", "SeriesDc"} -> <<"i">> [] t = "ShuntDc" -> <<"i_a">> [] t = "ExtExDc" -> <<"i_a", "i_e">>
                 [] t = "EESM" -> <<"i_sd", "i_sq", "i_e">> [] OTHER -> <<"i_sd", "i_sq">>
Voltages(t) == CASE t \in {"PermExDc", "SeriesDc", "ShuntDc"} -> <<"u">> [] t = "ExtExDc" -> <<"u_a", "u_e">>
                 [] t = "EESM" -> <<"u_sd", "u_sq", "u_e">> [] OTHER -> <<"u_sd", "u_sq">>
OutVoltages(t) == CASE t \in DcTypes -> Voltages(t) [] t = "SCIM" -> <<"u_sa", "u_sb", "u_sc">>
                    [] t = "EESM" -> <<"u_a", "u_b", "u_c", "u_sup">> [] OTHER -> <<"u_a", "u_b", "u_c">>

(* ---- tuning (symmetrical optimum) ------------------------------------------------- *)
Inductance(t, mp) == CASE t = "PermExDc" -> <<mp.l_a>> [] t = "SeriesDc" -> <<mp.l_a ++ mp.l_e>> [] t = "ShuntDc" -> <<mp.l_a>>
                       [] t = "ExtExDc" -> <<mp.l_a, mp.l_e>> [] t = "EESM" -> <<mp.l_d, mp.l_q, mp.l_e>>
                       [] t = "SCIM" -> LET x == (mp.l_sigr ++ mp.l_m) // mp.r_r IN <<x, x>>
                       [] OTHER -> <<mp.l_d, mp.l_q>>
LoopTime(t, mp) == CASE t \in {"PermExDc", "ShuntDc"} -> <<mp.l_a // mp.r_a>> [] t = "SeriesDc" -> <<(mp.l_e ++ mp.l_a) // (mp.r_e ++ mp.r_a)>>
                     [] t = "ExtExDc" -> <<mp.l_a // mp.r_a, mp.l_e // mp.r_e>>
                     [] t = "SCIM" -> <<mp.l_sigs // mp.r_s, mp.l_sigr // mp.r_r>>
                     [] t = "EESM" -> <<mp.l_q // mp.r_s, mp.l_d // mp.r_s, mp.l_e // mp.r_e>>
                     [] OTHER -> <<mp.l_q // mp.r_s, mp.l_d // mp.r_s>>
RECURSIVE MinOf(_)
MinOf(v) == IF Len(v) = 1 THEN v[1] ELSE FMin(v[1], MinOf(Tail(v)))
CurrentGains(t, mp, tau, a, range) ==
  LET l == Inductance(t, mp)
      p == [k \in DOMAIN l |-> l[k] // (tau ** a)]
  IN [p |-> p, i |-> [k \in DOMAIN p |-> p[k] // (tau ** Sq(a))], d |-> VScale(tau, p),
      h |-> [k \in DOMAIN p |-> "0.01" ** (range.hi[k] -- range.lo[k])], lo |-> range.lo, hi |-> range.hi, idle |-> Zeros(Len(p))]
SpeedGains(t, mp, tau, a, j, cc, range) ==
  LET tn == IF cc \in {"PI", "PID"} THEN tau ** Sq(a) ELSE MinOf(LoopTime(t, mp))
      p == j // (a ** tn)
  IN [p |-> <<p>>, i |-> <<p // (a ** tn)>>, d |-> <<p ** tau>>,
      h |-> <<"0.01" ** (range.hi[1] -- range.lo[1])>>, lo |-> range.lo, hi |-> range.hi, idle |-> <<0>>]

(* ---- voltages induced by the motion of the machine, added when decoupling ---------- *)
(* X(name) reads the denormalised state *)
Emf(t, mp, X(_), u) ==
  CASE t = "PermExDc" -> <<u[1] ++ (mp.psi_e ** X("omega"))>>
    [] t = "SeriesDc" -> <<u[1] ++ (mp.l_e_prime ** X("i") ** X("omega"))>>
    [] t = "ShuntDc" -> <<u[1] ++ (mp.l_e_prime ** X("i_e") ** X("omega"))>>
    [] t = "ExtExDc" -> <<u[1] ++ (mp.l_e_prime ** X("i_e") ** X("omega")), u[2]>>
    [] t \in SyncTypes -> LET we == mp.p ** X("omega") IN
         << u[1] -- (we ** mp.l_q ** X("i_sq")), u[2] ++ (we ** ((mp.l_d ** X("i_sd")) ++ SyncFlux(t, mp))) >>
    [] t = "EESM" -> LET we == mp.p ** X("omega")
                         b == << (u[1] -- (we ** mp.l_q ** X("i_sq"))) -- (((mp.l_m ** mp.r_e) // mp.l_e) ** X("i_e")),
                                 u[2] ++ (we ** ((mp.l_d ** X("i_sd")) ++ (mp.l_m ** X("i_e")))),
                                 (u[3] ++ (we ** ((mp.l_m ** mp.l_q) // mp.l_d) ** X("i_sq"))) -- (((mp.l_m ** mp.r_s) // mp.l_d) ** X("i_sd")) >>
                     IN << b[1] ++ ((mp.l_m // mp.l_e) ** b[3]), b[2], b[3] ++ ((mp.l_m // mp.l_d) ** b[1]) >>
    [] t = "SCIM" -> LET d == ImD(mp)
                         we == mp.p ** X("omega")
                         slip == (mp.r_r ** d.kr ** X("i_sq") ** FSign(X("psi_abs"))) // FMax(FAbs(X("psi_abs")), "1e-4")
                         ws == we ++ slip
                         sl == d.sigma ** d.ls
                     IN << (u[1] -- (ws ** sl ** X("i_sq"))) -- (((mp.l_m ** mp.r_r) // Sq(d.lr)) ** X("psi_abs")),
                           u[2] ++ (ws ** sl ** X("i_sd")) ++ (we ** d.kr ** X("psi_abs")) >>

(* ---- operating points of the DC machines (C29) --------------------------------------- *)
(* T the torque request; margin reduces the limits LIM(name) that protect the machine *)
NonZero(x) == IF (0 \preceq x) /\ (x \prec "1e-4") THEN "1e-4" ELSE IF (x \prec 0) /\ ("-1e-4" \prec x) THEN "-1e-4" ELSE x
Protected(t, mp, X(_), LIM(_), margin) ==      \* does a protective limit intervene?
  CASE t = "ShuntDc" -> (LIM("i_e") ** (1 -- margin)) \prec FAbs(X("i_e"))
    [] OTHER -> FALSE
PermExCap(mp, X(_), LIM(_)) == LIM("u") // (mp.r_a ++ (mp.psi_e ** FAbs(X("omega"))))
DcPoint(t, mp, X(_), LIM(_), margin, T) ==
  CASE t = "PermExDc" -> LET i == T // mp.psi_e  cap == PermExCap(mp, X, LIM) IN
                         IF 0 \prec X("omega") THEN <<FMin(i, cap)>> ELSE <<FMax(i, FNeg(cap))>>
    [] t = "SeriesDc" -> <<FSqrt(T // mp.l_e_prime)>>
    [] t = "ExtExDc" -> << (T // mp.l_e_prime) // FMax(X("i_e"), "1e-4"),
                           FSqrt((FSqrt(mp.r_a) ** FAbs(T)) // (FSqrt(mp.r_e) ** mp.l_e_prime)) >>
    [] t = "ShuntDc" -> IF Protected(t, mp, X, LIM, margin)
                        THEN << (LIM("i_a") ** (1 -- margin)) ** FNeg(FSign(X("i_e"))) >>
                        ELSE << (T // mp.l_e_prime) // NonZero(X("i_e")) >>
(* the currents with which the machine would produce the torque: references where a reference exists *)
RealisedBy(t, X(_), i) == CASE t \in {"PermExDc", "SeriesDc"} -> i
                            [] OTHER -> <<i[1], X("i_e")>>

(* ---- output ------------------------------------------------------------------------------ *)
(* the voltages act in the middle of the step after the dead time: dead steps of delay *)
ToAbc(t, mp, tau, dead, X(_), u) ==
  LET ang == X(IF t = "SCIM" THEN "psi_angle" ELSE "epsilon") ++ (("0.5" ++ dead) ** tau ** mp.p ** X("omega"))
  IN DqToAbc(Head2(u), ang) \o SubSeq(u, 3, Len(u))
(* allowed switching commands of a converter part with n commands *)
Levels(n, u, range) ==
  LET w == "0.33" ** (range[2] -- range[1])  near == "1e-9" ** FMax(1, FAbs(w)) IN
  (IF u \preceq (near -- w) THEN {IF n = 2 THEN 0 ELSE 2} ELSE {})
  \cup (IF (w -- near) \preceq u THEN {1} ELSE {})
  \cup (IF (FNeg(w ++ near) \prec u) /\ (u \prec (w ++ near)) THEN {0} ELSE {})
=============================================================================
