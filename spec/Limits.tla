------------------------------- MODULE Limits -------------------------------
(* Limits, nominal values and sign ranges of every state (C23).                                          *)
(*   g = [type, mp, units, ul, un, wl, us, slo, shi]: machine, parameters, converter units, the user's     *)
(*   limits and nominal values (sequences of <<name, value>>), speed limit of the load or "none",          *)
(*   nominal supply voltage and the ends of the supply's range                                            *)
EXTENDS Motors, Converters, Defaults
Given(s, n) == \E k \in DOMAIN s : s[k][1] = n
ValOf(s, n) == s[CHOOSE k \in DOMAIN s : s[k][1] = n][2]
IsAc(type) == type \notin DcTypes
(* ---- general quantities: the user's, else the machine's default; a default nominal value never exceeds a given limit *)
Lim0(g, n) == IF Given(g.ul, n) THEN ValOf(g.ul, n) ELSE IF n \in DOMAIN MotorLimitDefaults[g.type] THEN MotorLimitDefaults[g.type][n] ELSE 0
Nom0(g, n) ==
  IF Given(g.un, n) THEN ValOf(g.un, n)
  ELSE LET d == IF n \in DOMAIN MotorNominalDefaults[g.type] THEN MotorNominalDefaults[g.type][n] ELSE 0 IN
       IF Given(g.ul, n) /\ 0 \prec ValOf(g.ul, n) THEN FMin(d, ValOf(g.ul, n)) ELSE d
IsVolt(n) == n \notin {"u", "u_sup"} /\ n \in {"u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e", "u_sa", "u_sb", "u_sc", "u_ra", "u_rb", "u_rc", "u_rd", "u_rq"}
IsCurr(n) == n \in {"i_a", "i_b", "i_c", "i_sd", "i_sq", "i_e", "i_sa", "i_sb", "i_sc", "i_ra", "i_rb", "i_rc", "i_rd", "i_rq"}
(* ---- derived ones: a phase voltage is half of the (peak-to-peak) voltage, every current has the general limit ------ *)
Half(x) == "0.5" ** x
Ra(g) == IF FEq(g.mp.r_a, 0) THEN 1 ELSE g.mp.r_a
(* stationary current at the voltage limit, for DC machines whose current limit is left open (0) *)
DcCurrent(g, n) ==
  CASE g.type = "PermExDc" -> Lim0(g, "u") // Ra(g)
    [] g.type = "SeriesDc" -> Lim0(g, "u") // (Ra(g) ++ g.mp.r_e)
    [] OTHER -> IF ~FEq(Lim0(g, "i"), 0) THEN Lim0(g, "i") ELSE Lim0(g, "u") // (IF n = "i_e" THEN g.mp.r_e ELSE Ra(g))
LimC(g, n) ==                     \* currents and voltages
  IF ~FEq(Lim0(g, n), 0) THEN Lim0(g, n)
  ELSE IF IsAc(g.type) THEN (IF IsVolt(n) THEN Half(Lim0(g, "u")) ELSE Lim0(g, "i"))
  ELSE IF n \in {"u", "u_a", "u_e"} THEN MotorLimitDefaults[g.type]["u"] ELSE DcCurrent(g, n)
(* ---- greatest torque -------------------------------------------------------------------------------------------- *)
(* maximum torque per ampere: (l_d - l_q) i_d^2 * 2 + psi i_d - (l_d - l_q) i_n^2 = 0, root in the torque-raising direction *)
MtpaD(psi, dl, in) ==
  LET p == psi // (2 ** dl)  r == FSqrt(Sq(p // 2) ++ (Sq(in) // 2)) IN
  IF dl \prec 0 THEN FNeg(p // 2) -- r ELSE FNeg(p // 2) ++ r
Mtpa(psi, dl, in) == LET d == MtpaD(psi, dl, in) IN <<d, FSqrt(Sq(in) -- Sq(d))>>
TorqueMax(g) ==
  LET mp == g.mp  dl == IF g.type \in SyncTypes \cup {"EESM"} THEN mp.l_d -- mp.l_q ELSE 0 IN
  CASE g.type \in DcTypes -> Torque(g.type, mp, IF g.type \in {"PermExDc", "SeriesDc"} THEN <<LimC(g, "i")>> ELSE <<LimC(g, "i_a"), LimC(g, "i_e")>>)
    [] g.type = "SynRM" -> LET r == FSqrt(2) IN FAbs(Torque("SynRM", mp, <<LimC(g, "i_sd") // r, LimC(g, "i_sq") // r, 0>>))
    [] g.type = "PMSM" -> IF FEq(dl, 0) THEN Torque("PMSM", mp, <<0, LimC(g, "i_sq"), 0>>)
                          ELSE Torque("PMSM", mp, Mtpa(mp.psi_p, dl, Nom0(g, "i")) \o <<0>>)
    [] g.type = "EESM" -> IF FEq(dl, 0) THEN Torque("EESM", mp, <<0, LimC(g, "i_sq"), LimC(g, "i_e"), 0>>)
                          ELSE Torque("EESM", mp, Mtpa(EesmD(mp).lM ** Nom0(g, "i"), dl, Nom0(g, "i")) \o <<LimC(g, "i_e"), 0>>)
    [] g.type \in InductionTypes -> ("0.75" ** mp.p) ** ((Sq(mp.l_m) // (mp.l_m ++ mp.l_sigr)) ** LimC(g, "i_sd") ** LimC(g, "i_sq"))
(* ---- limit and nominal value of a state --------------------------------------------------------------------------- *)
LimitOf(g, n) ==
  CASE n = "u_sup" -> g.us
    [] n = "omega" -> LET m == IF FEq(Lim0(g, n), 0) THEN MotorLimitDefaults[g.type][n] ELSE Lim0(g, n) IN IF g.wl = "none" THEN m ELSE FMin(m, g.wl)
    [] n = "torque" -> IF FEq(Lim0(g, n), 0) THEN TorqueMax(g) ELSE Lim0(g, n)
    [] n = "epsilon" -> Lim0(g, n)
    [] OTHER -> LimC(g, n)
NominalOf(g, n) ==
  LET l == LimitOf(g, n) IN
  IF n = "u_sup" THEN l
  ELSE FMin(l, IF ~FEq(Nom0(g, n), 0) THEN Nom0(g, n)
               ELSE IF IsAc(g.type) /\ IsVolt(n) THEN Half(Nom0(g, "u"))
               ELSE IF IsAc(g.type) /\ IsCurr(n) THEN Nom0(g, "i") ELSE l)
(* ---- sign ranges ------------------------------------------------------------------------------------------------- *)
UL(g) == Flatten([k \in DOMAIN g.units |-> ULow(g.units[k].type)])
IL(g) == Flatten([k \in DOMAIN g.units |-> ILow(g.units[k].type)])
LowOf(g, n) ==
  IF IsAc(g.type) THEN (IF n = "u_sup" THEN FMin(0, g.slo // g.us) ELSE -1)
  ELSE LET u == UL(g)  i == IL(g)  neg == CHOOSE x \in {-1} : TRUE IN
  CASE n = "u_sup" -> IF FEq(g.slo, g.shi) THEN 0 ELSE g.slo // g.us
    [] n = "omega" -> IF g.type = "PermExDc" THEN u[1] ELSE IF g.type = "ExtExDc" THEN (IF neg \in {u[1], u[2]} THEN neg ELSE 0) ELSE 0
    [] n = "torque" -> IF g.type = "SeriesDc" THEN 0 ELSE IF g.type = "ExtExDc" THEN (IF neg \in {i[1], i[2]} THEN neg ELSE 0) ELSE i[1]
    [] n \in {"i", "u", "u_a", "i_a"} -> IF n \in {"i", "i_a"} THEN i[1] ELSE u[1]
    [] n = "i_e" -> IF g.type = "ExtExDc" THEN i[2] ELSE i[1]
    [] n = "u_e" -> u[2]
HighOf(g, n) == IF n = "u_sup" THEN g.shi // g.us ELSE 1
=============================================================================
