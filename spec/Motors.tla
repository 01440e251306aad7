------------------------------ MODULE Motors ------------------------------
(* Machine equations of all electric motors (C16), written from the        *)
(* voltage, flux-linkage and torque equations.  mp is the parameter record, *)
(* x the electrical state, u the input voltages, w the mechanical speed.    *)
(*   DC      x = <<i>> or <<i_a, i_e>>                                      *)
(*   PMSM/SynRM  x = <<i_sd, i_sq, eps>>,  EESM x = <<i_sd, i_sq, i_e, eps>>*)
(*   SCIM/DFIM   x = <<i_sa, i_sb, psi_ra, psi_rb, eps>>  (alpha/beta)      *)
EXTENDS Flt

DcTypes == {"PermExDc", "ExtExDc", "SeriesDc", "ShuntDc"}
SyncTypes == {"PMSM", "SynRM"}
InductionTypes == {"SCIM", "DFIM"}
MotorTypes == DcTypes \cup SyncTypes \cup {"EESM"} \cup InductionTypes

(* ---- derived quantities -------------------------------------------------- *)
EesmD(mp) == LET lM == mp.k ** "1.5" ** mp.l_m
                 lE == (Sq(mp.k) ** "1.5") ** mp.l_e
                 rE == (Sq(mp.k) ** "1.5") ** mp.r_e
                 iK == 2 // (3 ** mp.k)                  \* i_E = iK * i_e
             IN [lM |-> lM, lE |-> lE, rE |-> rE, iK |-> iK,
                 sigma |-> 1 -- (Sq(lM) // (mp.l_d ** lE))]
ImD(mp) == LET ls == mp.l_m ++ mp.l_sigs
               lr == mp.l_m ++ mp.l_sigr
           IN [ls |-> ls, lr |-> lr, sigma |-> ((ls ** lr) -- Sq(mp.l_m)) // (ls ** lr), kr |-> mp.l_m // lr]

(* ---- torque ---------------------------------------------------------------- *)
SyncFlux(type, mp) == IF type = "PMSM" THEN mp.psi_p ELSE 0
Torque(type, mp, x) ==
  CASE type = "PermExDc" -> mp.psi_e ** x[1]
    [] type = "SeriesDc" -> mp.l_e_prime ** x[1] ** x[1]
    [] type \in {"ShuntDc", "ExtExDc"} -> mp.l_e_prime ** x[1] ** x[2]
    [] type \in SyncTypes -> ("1.5" ** mp.p) ** ((SyncFlux(type, mp) ++ (mp.l_d -- mp.l_q) ** x[1]) ** x[2])
    [] type = "EESM" -> LET d == EesmD(mp) IN
         ("1.5" ** mp.p) ** ((d.lM ** d.iK ** x[3] ++ (mp.l_d -- mp.l_q) ** x[1]) ** x[2])
    [] type \in InductionTypes -> LET d == ImD(mp) IN
         ("1.5" ** mp.p ** d.kr) ** (x[3] ** x[2] -- x[4] ** x[1])

(* ---- dx/dt ------------------------------------------------------------------- *)
Ode(type, mp, x, u, w) ==
  CASE type = "PermExDc" -> << (u[1] -- (mp.r_a ** x[1]) -- (mp.psi_e ** w)) // mp.l_a >>
    [] type = "SeriesDc" -> << (u[1] -- ((mp.r_a ++ mp.r_e) ** x[1]) -- (mp.l_e_prime ** x[1] ** w)) // (mp.l_a ++ mp.l_e) >>
    [] type \in {"ShuntDc", "ExtExDc"} ->
         LET ue == IF type = "ShuntDc" THEN u[1] ELSE u[2] IN
         << (u[1] -- (mp.r_a ** x[1]) -- (mp.l_e_prime ** x[2] ** w)) // mp.l_a, (ue -- (mp.r_e ** x[2])) // mp.l_e >>
    [] type \in SyncTypes ->
         LET we == mp.p ** w IN
         << ((u[1] -- (mp.r_s ** x[1])) ++ (we ** mp.l_q ** x[2])) // mp.l_d,
            (u[2] -- (mp.r_s ** x[2]) -- (we ** ((mp.l_d ** x[1]) ++ SyncFlux(type, mp)))) // mp.l_q,
            we >>
    [] type = "EESM" ->
         LET d == EesmD(mp)  we == mp.p ** w  iE == d.iK ** x[3]
             psid == (u[1] -- (mp.r_s ** x[1])) ++ (we ** mp.l_q ** x[2])       \* d psi_d / dt
             psiE == (mp.k ** u[3]) -- (d.rE ** iE)                              \* d psi_E / dt
         IN << (psid -- ((d.lM // d.lE) ** psiE)) // (d.sigma ** mp.l_d),
               (u[2] -- (mp.r_s ** x[2]) -- (we ** ((mp.l_d ** x[1]) ++ (d.lM ** iE)))) // mp.l_q,
               ((psiE -- ((d.lM // mp.l_d) ** psid)) // (d.sigma ** d.lE)) // d.iK,
               we >>
    [] type \in InductionTypes ->
         LET d == ImD(mp)  we == mp.p ** w
             ur == IF type = "DFIM" THEN <<u[3], u[4]>> ELSE <<0, 0>>
             ira == (x[3] -- (mp.l_m ** x[1])) // d.lr
             irb == (x[4] -- (mp.l_m ** x[2])) // d.lr
             dpa == ur[1] -- (mp.r_r ** ira) -- (we ** x[4])
             dpb == (ur[2] -- (mp.r_r ** irb)) ++ (we ** x[3])
             sl == d.sigma ** d.ls
         IN << (u[1] -- (mp.r_s ** x[1]) -- (d.kr ** dpa)) // sl,
               (u[2] -- (mp.r_s ** x[2]) -- (d.kr ** dpb)) // sl,
               dpa, dpb, we >>

(* ---- current(s) drawn from the converter --------------------------------------- *)
InCurrent(type, x) ==
  CASE type \in {"PermExDc", "SeriesDc"} -> <<x[1]>>
    [] type = "ShuntDc" -> <<x[1] ++ x[2]>>
    [] type = "EESM" -> <<x[1], x[2], x[3]>>
    [] OTHER -> <<x[1], x[2]>>

(* ---- derivatives of the model: it is affine in x for fixed w and in w for     *)
(*      fixed x, the torque is quadratic in x, so unit differences are exact     *)
Bump(x, j, h) == [i \in DOMAIN x |-> IF i = j THEN x[i] ++ h ELSE x[i]]
OdeDx(type, mp, x, u, w) ==
  LET f0 == Ode(type, mp, x, u, w)
      c == [j \in DOMAIN x |-> VSub(Ode(type, mp, Eager(Bump(x, j, 1)), u, w), f0)]
  IN Eager([i \in DOMAIN x |-> [j \in DOMAIN x |-> c[j][i]]])
OdeDw(type, mp, x, u, w) == VSub(Ode(type, mp, x, u, w ++ 1), Ode(type, mp, x, u, w))
TorqueDx(type, mp, x) ==
  Eager([j \in DOMAIN x |-> (Torque(type, mp, Eager(Bump(x, j, 1))) -- Torque(type, mp, Eager(Bump(x, j, -1)))) ** "0.5"])

(* ---- energy balance:  input power = losses + d/dt magnetic energy + mechanical power *)
PowerBalance(type, mp, x, u, w) ==
  LET f == Ode(type, mp, x, u, w)
      mech == Torque(type, mp, x) ** w
      in == CASE type \in {"PermExDc", "SeriesDc"} -> u[1] ** x[1]
              [] type = "ShuntDc" -> u[1] ** (x[1] ++ x[2])
              [] type = "ExtExDc" -> (u[1] ** x[1]) ++ (u[2] ** x[2])
              [] type \in SyncTypes -> "1.5" ** ((u[1] ** x[1]) ++ (u[2] ** x[2]))
              [] type = "EESM" -> LET d == EesmD(mp) IN
                   "1.5" ** ((u[1] ** x[1]) ++ (u[2] ** x[2]) ++ (mp.k ** u[3] ** d.iK ** x[3]))
              [] OTHER -> LET d == ImD(mp)  ur == IF type = "DFIM" THEN <<u[3], u[4]>> ELSE <<0, 0>> IN
                   "1.5" ** ((u[1] ** x[1]) ++ (u[2] ** x[2])
                             ++ (ur[1] ** ((x[3] -- (mp.l_m ** x[1])) // d.lr))
                             ++ (ur[2] ** ((x[4] -- (mp.l_m ** x[2])) // d.lr)))
      loss == CASE type = "PermExDc" -> mp.r_a ** Sq(x[1])
                [] type = "SeriesDc" -> (mp.r_a ++ mp.r_e) ** Sq(x[1])
                [] type \in {"ShuntDc", "ExtExDc"} -> (mp.r_a ** Sq(x[1])) ++ (mp.r_e ** Sq(x[2]))
                [] type \in SyncTypes -> "1.5" ** mp.r_s ** (Sq(x[1]) ++ Sq(x[2]))
                [] type = "EESM" -> LET d == EesmD(mp) IN
                     "1.5" ** ((mp.r_s ** (Sq(x[1]) ++ Sq(x[2]))) ++ (d.rE ** Sq(d.iK ** x[3])))
                [] OTHER -> LET d == ImD(mp) IN
                     "1.5" ** ((mp.r_s ** (Sq(x[1]) ++ Sq(x[2])))
                               ++ (mp.r_r ** (Sq((x[3] -- (mp.l_m ** x[1])) // d.lr) ++ Sq((x[4] -- (mp.l_m ** x[2])) // d.lr))))
      mag == CASE type = "PermExDc" -> mp.l_a ** x[1] ** f[1]
               [] type = "SeriesDc" -> (mp.l_a ++ mp.l_e) ** x[1] ** f[1]
               [] type \in {"ShuntDc", "ExtExDc"} -> (mp.l_a ** x[1] ** f[1]) ++ (mp.l_e ** x[2] ** f[2])
               [] type \in SyncTypes -> "1.5" ** ((mp.l_d ** x[1] ** f[1]) ++ (mp.l_q ** x[2] ** f[2]))
               [] type = "EESM" -> LET d == EesmD(mp)  iE == d.iK ** x[3]  dE == d.iK ** f[3] IN
                    "1.5" ** ((mp.l_d ** x[1] ** f[1]) ++ (mp.l_q ** x[2] ** f[2]) ++ (d.lE ** iE ** dE)
                              ++ (d.lM ** ((x[1] ** dE) ++ (iE ** f[1]))))
               [] OTHER -> LET d == ImD(mp) IN     \* W = 3/4 (sigma ls |is|^2 + |psi_r|^2 / lr)
                    "1.5" ** ((d.sigma ** d.ls ** ((x[1] ** f[1]) ++ (x[2] ** f[2])))
                              ++ (((x[3] ** f[3]) ++ (x[4] ** f[4])) // d.lr))
  IN NearTol(in, loss ++ mag ++ mech, "1e-7")
=============================================================================
