-------------------------------- MODULE FocOps --------------------------------
(* Field-oriented operating points (C30): from a torque request to current        *)
(* references of PMSM, SynRM and SCIM.                                            *)
(*   mp = [p, l_d, l_q, psi_p]          synchronous machines (psi_p = 0: SynRM)   *)
(*   mp = [p, l_m, l_sigs, l_sigr, r_s, r_r]   induction machine                  *)
(* The modulation controller (flux limit at high speed) is a state machine with   *)
(* an integrator: m = [z, lim], constants h = [k, amax, gain, low, high, z0, udc, *)
(* p, tau].                                                                       *)
EXTENDS Flt

(* ---- modulation controller -------------------------------------------------- *)
Alpha(damping) == damping // (damping -- FSqrt(Sq(damping) -- 1))
ModGain(l, rs, damping) == LET a == Alpha(damping) IN (1 // (l // ("1.25" ** rs))) ** ((a -- 1) // Sq(a))
VoltageFlux(h, w) == h.udc // (FSqrt(3) ** FMax(FAbs(w), "0.0001") ** h.p)
ModInit(h) == [z |-> h.z0, lim |-> FALSE]
(* one call: measured dq voltages, speed; [m, psi] *)
Modulate(h, m, ud, uq, w) ==
  LET a == (2 ** FSqrt(Sq(ud) ++ Sq(uq))) // h.udc
      z == IF ("1.1" ** h.amax) \prec a THEN h.z0 ELSE m.z
      ad == (h.k ** h.amax) -- a
      ki == (2 ** FMax(FAbs(w), "0.0001") ** h.p) // h.udc
      delta == Eager((h.gain // ki) ** ((ad ** h.tau) ++ z))
      free == h.low \preceq delta /\ delta \preceq h.high
      z1 == IF free THEN (IF m.lim THEN h.z0 ELSE z) ++ (ad ** h.tau) ELSE z
  IN [m |-> [z |-> z1, lim |-> ~free], psi |-> VoltageFlux(h, w) ++ Clip(delta, h.low, h.high), free |-> free, delta |-> delta]

(* ---- synchronous machines ------------------------------------------------------ *)
Lam(mp, d) == mp.psi_p ++ ((mp.l_d -- mp.l_q) ** d)
SyncT(mp, d, q) == "1.5" ** mp.p ** Lam(mp, d) ** q
FluxOf(mp, d, q) == FSqrt(Sq(mp.psi_p ++ (mp.l_d ** d)) ++ Sq(mp.l_q ** q))
Amp(d, q) == FSqrt(Sq(d) ++ Sq(q))
Reluctance(mp) == FEq(mp.psi_p, 0)
(* d current (never positive) that gives the greatest torque per current together with q *)
LeastD(mp, q) ==
  LET D == mp.l_d -- mp.l_q IN
  IF FEq(D, 0) THEN 0 ELSE IF Reluctance(mp) THEN FNeg(FAbs(q))
  ELSE FMin(0, (FSqrt(Sq(mp.psi_p) ++ (4 ** Sq(D) ** Sq(q))) -- mp.psi_p) // (2 ** D))
RECURSIVE Bisect(_, _, _, _)
Bisect(F(_), lo, hi, n) ==     \* F increasing; its zero in [lo, hi]
  IF n = 0 THEN "0.5" ** (lo ++ hi)
  ELSE LET m == Eager("0.5" ** (lo ++ hi)) IN IF F(m) \prec 0 THEN Bisect(F, m, hi, n - 1) ELSE Bisect(F, lo, m, n - 1)
LeastT(mp, q) == FAbs(SyncT(mp, LeastD(mp, q), q))
(* the point of torque T (>= 0) with the least current; q is the amount of i_sq *)
LeastQ(mp, T, qmax) == Bisect(LAMBDA q : LeastT(mp, q) -- T, 0, qmax, 45)
LeastPoint(mp, T, qmax) == LET q == Eager(LeastQ(mp, T, qmax)) IN <<LeastD(mp, q), q>>
(* greatest torque within the current limit *)
CapQ(mp, ilim) == Bisect(LAMBDA q : Amp(LeastD(mp, q), q) -- ilim, 0, ilim, 45)
CapT(mp, ilim) == LeastT(mp, CapQ(mp, ilim))
(* amount of i_sq at d current d for torque T; the flux of that point *)
QFor(mp, d, T) == FAbs(T // ("1.5" ** mp.p ** Lam(mp, d)))
(* greatest torque at flux psi within the current limit, over n d-currents *)
RECURSIVE BestT(_, _, _, _, _, _)
BestT(mp, psi, ilim, n, k, best) ==
  IF k > n THEN best
  ELSE LET d == FNeg(ilim) ** (k // n)
           r == Sq(psi) -- Sq(mp.psi_p ++ (mp.l_d ** d))
           q == IF r \prec 0 THEN 0 ELSE FSqrt(r) // mp.l_q
           t == IF r \prec 0 \/ ilim \prec Amp(d, q) THEN 0 ELSE FAbs(SyncT(mp, d, q))
       IN BestT(mp, psi, ilim, n, k + 1, FMax(best, t))
FluxLimitedT(mp, psi, ilim, n) == BestT(mp, psi, ilim, n, 0, 0)

(* ---- induction machine ----------------------------------------------------------- *)
Lr(mp) == mp.l_m ++ mp.l_sigr
ImTorque(mp, psi, q) == "1.5" ** mp.p ** (mp.l_m // Lr(mp)) ** psi ** q
(* copper losses of stator and rotor at flux current d for torque T *)
ImLoss(mp, d, T) ==
  LET q == T // ("1.5" ** mp.p ** (Sq(mp.l_m) // Lr(mp)) ** d)
  IN "1.5" ** ((mp.r_s ** Sq(d)) ++ ((mp.r_s ++ (mp.r_r ** (Sq(mp.l_m) // Sq(Lr(mp))))) ** Sq(q)))
ImBestD(mp, T) ==
  LET g == "1.5" ** mp.p ** (Sq(mp.l_m) // Lr(mp))
      rq == mp.r_s ++ (mp.r_r ** (Sq(mp.l_m) // Sq(Lr(mp))))
  IN FSqrt((FAbs(T) // g) ** FSqrt(rq // mp.r_s))
(* Externally excited synchronous machine: at every excitation current i_e a machine with psi_p = l_m i_e *)
Excited(mp, ie) == [p |-> mp.p, l_d |-> mp.l_d, l_q |-> mp.l_q, r_s |-> mp.r_s, psi_p |-> mp.l_m ** ie]
EeT(mp, i) == SyncT(Excited(mp, i[3]), i[1], i[2])
EeFlux(mp, i) == FluxOf(Excited(mp, i[3]), i[1], i[2])
EeLoss(mp, i) == (mp.r_s ** (FAbs(i[1]) ++ FAbs(i[2]))) ++ (mp.r_e ** FAbs(i[3]))
(* greatest torque with flux psi, scanning n * n excitation and direct currents *)
RECURSIVE EeScanD(_, _, _, _, _, _)
EeScanD(F(_, _), ie, ilim, n, k, best) ==
  IF k > n THEN best ELSE EeScanD(F, ie, ilim, n, k + 1, Eager(F(best, <<ilim ** (((2 * k) // n) -- 1), ie>>)))
RECURSIVE EeScan(_, _, _, _, _, _)
EeScan(F(_, _), ilim, elim, n, k, best) ==
  IF k > n THEN best ELSE EeScan(F, ilim, elim, n, k + 1, Eager(EeScanD(F, Eager(elim ** (k // n)), ilim, 2 * n, 0, best)))
EeFluxLimitedT(mp, psi, ilim, elim, n) ==
  EeScan(LAMBDA b, x : LET m == Excited(mp, x[2])
                               r == Sq(psi) -- Sq(m.psi_p ++ (mp.l_d ** x[1]))
                               q == IF r \prec 0 THEN 0 ELSE FSqrt(r) // mp.l_q
                           IN IF r \prec 0 \/ ilim \prec Amp(x[1], q) THEN b ELSE FMax(b, FAbs(SyncT(m, x[1], q))),
         ilim, elim, n, 0, 0)
(* least loss of a torque, same scan *)
EeLeastLoss(mp, T, ilim, elim, n) ==
  EeScan(LAMBDA b, x : LET m == Excited(mp, x[2]) IN
                           IF Lam(m, x[1]) \preceq 0 THEN b
                           ELSE LET q == QFor(m, x[1], T) IN
                                IF ilim \prec Amp(x[1], q) THEN b ELSE FMin(b, EeLoss(mp, <<x[1], q, x[2]>>)),
         ilim, elim, n, 0, "1e30")
=============================================================================
