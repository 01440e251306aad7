------------------------------ MODULE Wrappers ------------------------------
(* Physical-system wrappers (C10).  A layout describes a system:              *)
(*   [names, limits, nominal, low, high]  sequences of one length             *)
(* A wrapper is a record with kind                                             *)
(*   "cossin" angle, remove   "sum" currents, limit   "noise" states, lo, hi   *)
(*   "flux" currents, lm, lr, rr, p    "dead" | "dq" (neither alters states)   *)
(* Layout(w, L): the layout of the wrapped system; Value(w, L, x, m): its state *)
(* for the inner state x and the wrapper's memory m (complex flux).             *)
EXTENDS Flt, FiniteSets, TLC
Index(s, n) == CHOOSE i \in DOMAIN s : s[i] = n
Without(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
Pick(s, is) == [k \in DOMAIN is |-> s[is[k]]]
Ones(n) == [i \in 1..n |-> 1]
MinusOnes(n) == [i \in 1..n |-> -1]
Positions(L, ns) == [k \in DOMAIN ns |-> Index(L.names, ns[k])]
RECURSIVE MaxOf(_)
MaxOf(v) == IF Len(v) = 1 THEN v[1] ELSE FMax(Head(v), MaxOf(Tail(v)))
Combine(w, v) == IF w.limit = "max" THEN MaxOf(v) ELSE FSum(v)
Extend(L, ns, lim, nom) == [names |-> L.names \o ns, limits |-> L.limits \o lim, nominal |-> L.nominal \o nom,
                            low |-> L.low \o MinusOnes(Len(ns)), high |-> L.high \o Ones(Len(ns))]
Drop(L, i) == [names |-> Without(L.names, i), limits |-> Without(L.limits, i), nominal |-> Without(L.nominal, i),
               low |-> Without(L.low, i), high |-> Without(L.high, i)]
FluxLimit(w, L) == w.lm ** L.limits[Index(L.names, "i_sd")]
Layout(w, L) ==
  CASE w.kind = "cossin" ->
         LET B == IF w.remove THEN Drop(L, Index(L.names, w.angle)) ELSE L IN
         Extend(B, <<"cos(" \o w.angle \o ")", "sin(" \o w.angle \o ")">>, <<1, 1>>, <<1, 1>>)
    [] w.kind = "sum" ->
         LET p == Positions(L, w.currents) IN
         Extend(L, <<"i_sum">>, <<Combine(w, Pick(L.limits, p))>>, <<Combine(w, Pick(L.nominal, p))>>)
    [] w.kind = "flux" -> Extend(L, <<"psi_abs", "psi_angle">>, <<FluxLimit(w, L), Pi>>, <<FluxLimit(w, L), Pi>>)
    [] OTHER -> L
(* ---- flux estimation: explicit Euler step of the rotor flux model -------------- *)
Flux0 == <<"0.0", "0.0">>
FluxStep(w, i, omega, psi, tau) ==
  LET a == w.rr // w.lr  k == (w.rr ** w.lm) // w.lr  om == omega ** w.p IN
  << psi[1] ++ (tau ** (((k ** i[1]) -- (a ** psi[1])) -- (om ** psi[2]))),
     psi[2] ++ (tau ** (((k ** i[2]) -- (a ** psi[2])) ++ (om ** psi[1]))) >>
Clarke(v) == << (((2 ** v[1]) -- v[2]) -- v[3]) // 3, (v[2] -- v[3]) // "1.7320508075688772" >>
NewFlux(w, L, x, psi, tau) ==
  LET p == Positions(L, w.currents)  o == Index(L.names, "omega") IN
  FluxStep(w, Clarke(VMul(Pick(x, p), Pick(L.limits, p))), x[o] ** L.limits[o], psi, tau)
(* ---- states ------------------------------------------------------------------ *)
Value(w, L, x, psi) ==
  CASE w.kind = "cossin" ->
         LET i == Index(L.names, w.angle)  e == x[i] ** Pi IN
         (IF w.remove THEN Without(x, i) ELSE x) \o << FCos(e), FSin(e) >>
    [] w.kind = "sum" ->
         LET p == Positions(L, w.currents) IN
         x \o << FSum(VMul(Pick(x, p), Pick(L.limits, p))) // Combine(w, Pick(L.limits, p)) >>
    [] w.kind = "flux" -> x \o << FSqrt(Sq(psi[1]) ++ Sq(psi[2])) // FluxLimit(w, L), FAtan2(psi[2], psi[1]) // Pi >>
    [] OTHER -> x
=============================================================================
