------------------------------ MODULE DcOpsTrace ------------------------------
(* Conformance of the operating point selection of the DC machines (C29): the   *)
(* requested torque is what the machine's torque equation gives for the current *)
(* references, unless a protective limit intervenes.                            *)
EXTENDS TraceBase, Control
Init0 == [c |-> <<>>]
Pos(names, n) == CHOOSE k \in DOMAIN names : names[k] = n
Rel(u, v, tol) == FClose(u, v, tol, "1e-12")
(* every Log that matters of one request; X denormalised state, i the references *)
Judge(s, e) ==
  LET c == s.c
      X(n) == e.x[Pos(c.names, n)]
      LIM(n) == c.lim[Pos(c.names, n)]
      T == e.T
      i == e.i
      got == Torque(c.t, c.mp, RealisedBy(c.t, X, i))
      cap == PermExCap(c.mp, X, LIM)
      capped == c.t = "PermExDc" /\ FAbs(FAbs(i[1]) -- cap) \preceq ("1e-9" ** cap) /\ ("0.999999999" ** c.mp.psi_e ** cap) \preceq FAbs(T)
      driving == (0 \prec X("omega")) <=> (0 \prec T)
      floor == c.t \in {"ExtExDc", "ShuntDc"} /\ X("i_e") \prec "1e-4" /\ (c.t = "ExtExDc" \/ "-1e-4" \prec X("i_e"))
      over == Protected(c.t, c.mp, X, LIM, c.margin)
      own == Eager(DcPoint(c.t, c.mp, X, LIM, c.margin, T))
      lo(n) == c.low[Pos(c.names, n)] ** LIM(n) ** (1 -- c.margin)
      hi(n) == c.high[Pos(c.names, n)] ** LIM(n) ** (1 -- c.margin)
      ns == Currents(c.t)
  IN FirstBad(<<
       <<"number of current references", Len(i) = Len(ns)>>,
       <<"requested torque is not realised", over \/ floor \/ capped \/ Rel(got, T, "1e-9")>>,
       <<"speed dependent current limit", c.t # "PermExDc" \/ ~driving \/ FAbs(i[1]) \preceq (cap ** "1.000000001")>>,
       <<"over-excitation is not driven back", ~over \/ (FEq(FSign(i[1]), FNeg(FSign(X("i_e")))) /\ "1e-12" \preceq FAbs(i[1]) /\ FAbs(i[1]) \preceq (LIM("i_a") ** (1 -- c.margin) ** "1.000000001"))>>,
       <<"torque direction near zero excitation", ~floor \/ over \/ FEq(T, 0) \/ FEq(FSign(i[1]), FSign(T)) \/ (X("i_e") \prec 0 /\ FEq(FSign(i[1]), FNeg(FSign(T))))>>,
       (* losses of both windings are equal where their sum is least *)
       <<"excitation does not minimise the losses", c.t # "ExtExDc" \/ c.policy \/ Rel(c.mp.r_e ** Sq(Sq(i[2])), c.mp.r_a ** Sq(T // c.mp.l_e_prime), "1e-8")>>,
       <<"excitation policy of the user", ~c.policy \/ Rel(i[2], e.ie, "1e-12")>>,
       <<"operating point", c.policy \/ (Len(own) = Len(i) /\ \A k \in DOMAIN own : Rel(own[k], i[k], "1e-9"))>>,
       <<"state modified", e.same>>,
       <<"currents handed on are not clipped to the reduced limits", e.j = <<>> \/ \A k \in DOMAIN ns : Rel(Clip(i[k], lo(ns[k]), hi(ns[k])), e.j[k], "1e-9")>>,
       <<"currents handed on exceed the reduced limits", e.j = <<>> \/ \A k \in DOMAIN ns : ((lo(ns[k]) -- "1e-9") \preceq e.j[k]) /\ (e.j[k] \preceq (hi(ns[k]) ++ "1e-9")) >>,
       <<"torque within the limits not realised by the currents handed on", e.j = <<>> \/ over \/ floor \/ capped \/ (\E k \in DOMAIN ns : ~Rel(i[k], e.j[k], "1e-12"))
            \/ Rel(Torque(c.t, c.mp, RealisedBy(c.t, X, e.j)), T, "1e-9")>> >>, 1)
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "ops" -> OK([c |-> e])
    [] e.ev = "select" -> [st |-> s, v |-> Judge(s, e)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
