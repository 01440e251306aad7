------------------------------ MODULE FocOpsTrace ------------------------------
(* Conformance of the operating point selection of PMSM, SynRM, EESM, SCIM (C30).    *)
(*  "ops": machine, limits, mode   "select": one request   "reset"                *)
EXTENDS TraceBase, FocOps
Init0 == [c |-> <<>>, m |-> <<>>]
ModConstants(e) ==
  LET mp == e.mp
      ee == e.t = "EESM"
      sync == e.t # "SCIM"
      ls == IF sync THEN mp.l_q ELSE mp.l_m ++ mp.l_sigs
      pmax == IF sync THEN 0 ELSE mp.l_m ** FMin(ImBestD(mp, e.tlim), e.idl)      \* greatest flux of the induction machine
      high == IF ee THEN "0.2" ** FAbs(e.margin) ** ((mp.l_m ** e.ie) ++ (mp.l_d ** e.iq)) ELSE IF sync THEN "0.2" ** FluxOf(mp, e.id, e.iq) ELSE "0.1" ** pmax
      low == IF sync THEN FNeg(high) ELSE FNeg(pmax)
  IN [k |-> IF sync THEN "0.953" ELSE "0.8", amax |-> e.amax, gain |-> ModGain(ls, mp.r_s, e.damping),
      low |-> low, high |-> high, z0 |-> (IF sync THEN "0.01" ELSE "0.5") ** low, udc |-> FSqrt(3) ** e.ua, p |-> mp.p, tau |-> e.tau]
(* resolution of the tables *)
FullT(c) == FMax("1.5" ** c.mp.p ** (c.mp.psi_p ++ (FAbs(c.mp.l_d -- c.mp.l_q) ** c.idl)) ** c.iql, c.tlim)
TRes(c) == IF c.mode = "online" THEN "0.0045" ** FullT(c) ELSE "0.02" ** FullT(c)
FRes(c) == (IF c.mode = "online" THEN "0.004" ELSE "0.02") ** FluxOf(c.mp, c.idl, c.iql)
IRes(c) == (IF c.mode = "online" THEN "0.01" ELSE "0.03") ** c.iql
Sync(s, e) ==
  LET c == s.c  mp == c.mp
      M == Eager(Modulate(c.h, s.m, e.ud, e.uq, e.w))
      T == e.T  A == FAbs(T)  d == e.i[1]  q == e.i[2]
      t == SyncT(mp, d, q)
      psi == FluxOf(mp, d, q)
      res == TRes(c) ++ ((IF Reluctance(mp) THEN "0.02" ELSE 0) ** A)
      cap == c.cap
      want == FMin(A, cap)
      pt == Eager(LeastPoint(mp, want, c.iq))
      ptlo == Eager(LeastPoint(mp, FMax(0, want -- res), c.iq))
      pthi == Eager(LeastPoint(mp, FMin(want ++ res, cap), c.iq))
      unlimited == (FluxOf(mp, pthi[1], pthi[2]) ++ FRes(c)) \preceq M.psi
      limited == (M.psi ++ FRes(c)) \prec FluxOf(mp, ptlo[1], ptlo[2])
      ordinary == A \preceq c.tlim /\ (A ++ res) \preceq cap      \* requests that the current limit permits
  IN [m |-> M.m, v |->
      << <<"current references are finite numbers", Len(e.i) = 2 /\ FFinite(d) /\ FFinite(q)>>,
         <<"torque of the references opposes the request", FAbs(t) \preceq res \/ FSign(t) = FSign(T)>>,
         <<"torque of the references exceeds the request", FAbs(t) \preceq (A ++ res)>>,
         <<"references exceed the reduced current limit", ~(ordinary \/ (c.mode = "online" /\ ~FEq(mp.l_d, mp.l_q))) \/ Amp(d, q) \preceq (c.iq ++ IRes(c))>>,
         <<"references beyond the flux that the voltage permits", psi \preceq (FMax(M.psi, FRes(c)) ++ ((IF Reluctance(mp) THEN 2 ELSE 1) ** FRes(c)))
            \/ (M.psi -- FRes(c)) \prec (mp.psi_p -- (mp.l_d ** c.id))         \* the reduced current limit does not permit such a flux
            \/ (FluxOf(mp, ptlo[1], ptlo[2]) \preceq M.psi /\ psi \preceq (FluxOf(mp, pthi[1], pthi[2]) ++ FRes(c)))>>,
         <<"requested torque is not realised although flux and current permit it", ~unlimited \/ ~ordinary \/ FAbs(FAbs(t) -- want) \preceq (res ++ ("0.01" ** want))>>,
         <<"a smaller current gives the same torque", ~unlimited \/ ~ordinary \/ Amp(d, q) \preceq (Amp(pthi[1], pthi[2]) ++ IRes(c))>>,
         <<"flux limited: neither torque and flux nor the greatest torque per flux",
            ~(limited /\ ordinary /\ c.mode = "online" /\ ~Reluctance(mp) /\ 0 \prec M.psi)
            \/ (FClose(FAbs(t), A, "1e-6", "1e-6") /\ FClose(psi, M.psi, "1e-6", "1e-9"))
            \/ ("0.95" ** FluxLimitedT(mp, M.psi -- FRes(c), c.iq, 150)) \preceq FAbs(t)>>,
         <<"state or request modified", e.same>> >>]
(* greatest torque at flux psi with the nominal voltage at nominal speed *)
ImMaxT(c, psi) == LET x == c.unom // (c.wnom ** (c.mp.l_m ++ c.mp.l_sigs)) IN
  FAbs(ImTorque(c.mp, psi, FSqrt(FMax(0, Sq(x) -- Sq(psi // c.mp.l_m)))))
(* the flux loop of the selection itself: PI with symmetrical optimum 4 and the  *)
(* stator's time constant; z is the accumulated deviation                       *)
FluxPI(c, z, dev) == LET p == 4 ** Sq((c.mp.l_m ++ c.mp.l_sigs) // c.mp.r_s) IN (p ** dev) ++ ((p // c.tau) ** z)
Im(s, e) ==
  LET c == s.c  mp == c.mp
      M == Eager(Modulate(c.h, s.m, e.ud, e.uq, e.w))
      T == e.T  A == FAbs(T)  d == e.i[1]  q == e.i[2]
      Best(x) == mp.l_m ** FMin(ImBestD(mp, Clip(x, 0, c.tlim)), c.idl)
      low == Best(A -- ("0.0011" ** c.tlim))  high == Best(A ++ ("0.0011" ** c.tlim))
      step == (mp.l_m ** c.idl) ** "0.012"
      psi == FMax(e.psi, "0.001")
      t == ImTorque(mp, psi, q)
      free == FAbs(q) \preceq ("0.999" ** c.iq) /\ Amp(d, q) \preceq ("0.999" ** c.id)
      (* the table of the greatest torque has 1000 flux values *)
      grid == (c.h.high ** 10) ** "0.002"
      below == ImMaxT(c, FMax(0, e.seen[2] -- grid))  above == ImMaxT(c, FMax(0, e.seen[2] ++ grid))
      tol == ("0.01" ** FMin(A, ImMaxT(c, c.h.high ** 10))) ++ "1e-9"
  IN [m |-> M.m, z |-> IF e.integrated THEN s.z ++ (c.tau ** (e.seen[2] -- e.seen[1])) ELSE s.z, v |->
      << <<"current references are finite numbers", Len(e.i) = 2 /\ FFinite(d) /\ FFinite(q)>>,
         <<"flux controller sees the measured flux", FEq(e.seen[1], e.psi)>>,
         <<"flux reference is not the one of least losses within the flux limit",
            (FMin(low, M.psi) -- step) \preceq e.seen[2] /\ e.seen[2] \preceq (FMin(high, M.psi) ++ step)>>,
         <<"i_sd is the output of the flux controller within the reduced limits", FClose(d, Clip(e.out, FNeg(c.id), c.id), "1e-9", "1e-12")>>,
         <<"output of the flux controller", ~c.own \/ FClose(e.out, FluxPI(c, s.z, e.seen[2] -- e.seen[1]), "1e-8", "1e-9")>>,
         <<"flux controller integrates beyond its limits", e.integrated = (FEq(Clip(e.out, FNeg(c.id), c.id), e.out))>>,
         <<"torque of the references opposes the request", FEq(q, 0) \/ FSign(q) = FSign(T)>>,
         <<"torque of the references exceeds the request", FAbs(t) \preceq (A ** "1.000001" ++ "1e-9")>>,
         <<"references exceed the reduced current limit", Amp(d, q) \preceq (c.id ** "1.000001")>>,
         <<"requested torque is not realised although flux and current permit it", ~free \/ (/\ (FMin(A, FMin(below, above)) -- tol) \preceq FAbs(t)
                         /\ FAbs(t) \preceq (FMin(A, FMax(below, above)) ++ tol))>>,
         <<"state or request modified", e.same>> >>]
(* the EESM's tables have 100 flux values, 50 torques and 200 * 200 interpolated values *)
EeFullFlux(c) == (c.mp.l_m ** c.ie) ++ (c.mp.l_d ** c.iq)
RECURSIVE EeFreeT(_, _, _)
EeFreeT(c, k, best) == IF k > 100 THEN best
  ELSE LET d == c.iq ** (((k // 50)) -- 1) IN EeFreeT(c, k + 1, Eager(FMax(best, FAbs(SyncT(Excited(c.mp, c.ie), d, FSqrt(FMax(0, Sq(c.iq) -- Sq(d))))))))
Ee(s, e) ==
  LET c == s.c  mp == c.mp
      M == Eager(Modulate(c.h, s.m, e.ud, e.uq, e.w))
      T == e.T  A == FAbs(T)
      t == EeT(mp, e.i)  psi == EeFlux(mp, e.i)
      res == "0.02" ** c.tlim
      fres == "0.012" ** EeFullFlux(c)
      unlimited == EeFullFlux(c) \preceq M.psi
      available == IF unlimited THEN c.cap ELSE IF M.psi \preceq fres THEN 0 ELSE Eager(EeFluxLimitedT(mp, M.psi -- fres, c.iq, c.ie, 12))
      want == FMin(A, FMax(0, (available ** "0.96") -- ("0.025" ** c.tlim)))
  IN [m |-> M.m, v |->
      << <<"current references are finite numbers", Len(e.i) = 3 /\ \A k \in 1..3 : FFinite(e.i[k])>>,
         <<"torque of the references opposes the request", FAbs(t) \preceq res \/ FSign(t) = FSign(T)>>,
         <<"torque of the references exceeds the request", FAbs(t) \preceq (A ++ res)>>,
         <<"references exceed the reduced current limit", Amp(e.i[1], e.i[2]) \preceq ("1.0001" ** c.iq) /\ FNeg("1e-6" ** c.ie) \preceq e.i[3] /\ e.i[3] \preceq ("1.0001" ** c.ie)>>,
         <<"references beyond the flux that the voltage permits", psi \preceq (FMax(M.psi, 0) ++ fres)>>,
         <<"requested torque is not realised although flux and current permit it", (want -- res) \preceq FAbs(t)>>,
         <<"other currents give the same torque with less losses", ~unlimited \/ A \preceq res \/ FAbs(t) \prec (A -- res)
            \/ EeLoss(mp, e.i) \preceq ((EeLeastLoss(mp, FMin(A ++ res, c.cap), c.iq, c.ie, 12) ** "1.05") ++ (mp.r_s ** c.iq ** "0.02"))>>,
         <<"state or request modified", e.same>> >>]
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "ops" -> LET h == Eager(ModConstants(e)) IN
         OK([z |-> 0, c |-> e @@ [h |-> h, cap |-> IF e.t = "SCIM" THEN 0 ELSE IF e.t = "EESM" THEN FMin(e.tlim, Eager(EeFreeT(e, 0, 0))) ELSE Eager(CapT(e.mp, e.iq))], m |-> ModInit(h)])
    [] e.ev = "reset" -> OK([s EXCEPT !.m = ModInit(s.c.h), !.z = 0])
    [] e.ev = "select" -> LET r == IF s.c.t = "SCIM" THEN Im(s, e) ELSE IF s.c.t = "EESM" THEN Ee(s, e) ELSE Sync(s, e) IN [st |-> [s EXCEPT !.m = r.m, !.z = IF s.c.t = "SCIM" THEN Eager(r.z) ELSE 0], v |-> FirstBad(r.v, 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
