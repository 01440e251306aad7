------------------------------- MODULE MCFocOps -------------------------------
(* Design check of the field-oriented operating points: least current and least    *)
(* losses on a grid; the modulation controller as state machine.                    *)
EXTENDS FocOps, FiniteSets, TLC
CONSTANTS Machines, Requests, Depth, Measured, Speeds
VARIABLES mc, T, h, m, psi, hist
vars == <<mc, T, h, m, psi, hist>>
MP(k) ==
  CASE k = "pm" -> [p |-> 3, l_d |-> 1, l_q |-> 3, psi_p |-> 2]
    [] k = "round" -> [p |-> 2, l_d |-> 2, l_q |-> 2, psi_p |-> 2]
    [] k = "inverse" -> [p |-> 1, l_d |-> 3, l_q |-> 1, psi_p |-> 9]
    [] k = "rel" -> [p |-> 3, l_d |-> 4, l_q |-> 1, psi_p |-> 0]
    [] k = "im" -> [p |-> 2, l_m |-> 2, l_sigs |-> "0.1", l_sigr |-> "0.1", r_s |-> 2, r_r |-> 1]
SomeSpeeds == {-40, 0, 10, 40}
ILIM == 10
H == [k |-> "0.95", amax |-> "1.15", gain |-> "0.5", low |-> -2, high |-> 2, z0 |-> "-0.02", udc |-> 100, p |-> 2, tau |-> "0.1"]
Init == mc \in Machines /\ T \in Requests /\ h = H /\ m = ModInit(H) /\ psi = "none" /\ hist = <<>>
Call == \E a \in Measured, w \in Speeds :
   /\ Len(hist) < Depth
   /\ LET r == Eager(Modulate(h, m, a, 0, w)) IN m' = r.m /\ psi' = r.psi /\ hist' = Append(hist, <<a, w>>)
   /\ UNCHANGED <<mc, T, h>>
Reset == hist # <<>> /\ m' = ModInit(h) /\ psi' = "none" /\ hist' = <<>> /\ UNCHANGED <<mc, T, h>>
Next == Call \/ Reset
Spec == Init /\ [][Next]_vars
mp == MP(mc)
(* ---- least current -------------------------------------------------------------- *)
Grid == {"-10", "-8", "-6", "-4.5", "-3.3", "-2.2", "-1.4", "-0.8", "-0.3", "0"}
LeastCurrent == (mc # "im" /\ hist = <<>>) =>
  LET cap == CapT(mp, ILIM)  t == FMin(T, cap)  x == Eager(LeastPoint(mp, t, ILIM)) IN
  /\ FClose(FAbs(SyncT(mp, x[1], x[2])), t, "1e-6", "1e-6")
  /\ Amp(x[1], x[2]) \preceq (ILIM ** "1.000001")
  /\ \A d \in Grid : FEq(Lam(mp, d), 0) \/ (Amp(x[1], x[2]) -- "1e-6") \preceq Amp(d, QFor(mp, d, t))
  (* at the flux of this point the torque is available *)
  /\ (t ** "0.8") \preceq FluxLimitedT(mp, FluxOf(mp, x[1], x[2]), ILIM, 80)
LeastLoss == (mc = "im" /\ hist = <<>> /\ T # 0) =>
  \A k \in {"0.3", "0.7", "0.95", "1.05", "1.5", "3"} : ImLoss(mp, ImBestD(mp, T), T) \preceq ImLoss(mp, ImBestD(mp, T) ** k, T)
(* ---- modulation -------------------------------------------------------------------- *)
Called == hist # <<>>
Band == Called => LET w == Last1(hist)[2] IN
  /\ (VoltageFlux(h, w) ++ h.low) \preceq psi /\ psi \preceq (VoltageFlux(h, w) ++ h.high)
(* a voltage reserve admits more flux, a voltage beyond the target less *)
Direction == [][Called /\ hist' # <<>> /\ (\A j \in DOMAIN hist' : hist'[j] = hist'[1]) =>
   LET a == (2 ** FAbs(Last1(hist')[1])) // h.udc  target == h.k ** h.amax IN
   /\ (a \prec target => psi \preceq (psi' ++ "1e-9"))
   /\ ((target \prec a /\ a \preceq ("1.1" ** h.amax)) => psi' \preceq (psi ++ "1e-9"))]_vars
Symmetric == Called => LET c == Last1(hist) IN
  LET r1 == Modulate(h, m, c[1], 0, c[2])  r2 == Modulate(h, m, 0, FNeg(c[1]), FNeg(c[2])) IN r1 = r2
=============================================================================
