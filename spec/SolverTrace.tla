---------------------------- MODULE SolverTrace ----------------------------
(* Trace specification of C20.                                              *)
(* "solver": kind of solver with its sub-steps, tolerance and the system     *)
(* "init": set_initial_value; "integrate": input u, target time t, outcome   *)
(* "agree": one simulated step of one environment under several solvers      *)
EXTENDS TraceBase, Solvers
Init0 == [sys |-> [kind |-> "none"]]
Expected(s, e) == IF s.solver = "euler" THEN Euler(s.sys, s.t, s.y, e.u, e.t, s.nsteps) ELSE Rk4(s.sys, s.t, s.y, e.u, e.t, 24)
CloseV(u, v, tol) == Len(u) = Len(v) /\ \A i \in DOMAIN u : FClose(u[i], v[i], tol, tol)
Step(s, e) ==
  CASE e.ev = "exc" -> BAD(s, "unexpected exception: " \o e.msg)
    [] e.ev = "solver" -> OK([sys |-> e.sys, solver |-> e.solver, nsteps |-> e.nsteps, tol |-> e.tol, onestep |-> e.onestep, t |-> 0, y |-> <<>>])
    [] e.ev = "init" ->
       [st |-> [s EXCEPT !.t = e.t, !.y = e.y],
        v |-> FirstBad(<< <<"initial value and time are taken over", FEq(e.t, e.got_t) /\ CloseV(e.y, e.got_y, "1e-12")>> >>, 1)]
    [] e.ev = "integrate" ->
       [st |-> [s EXCEPT !.t = e.t, !.y = e.y],
        v |-> FirstBad(
          << <<"solver time is the requested time", FClose(e.t, e.got_t, "1e-12", "1e-15")>>,
             <<"returned state is the solver state", CloseV(e.y, e.got_y, "1e-15")>>,
             <<"state is the solution from the previous state and time with the inputs set", CloseV(Expected(s, e), e.y, s.tol)>>,
             <<"system evaluated inside the interval only",
               s.onestep => (s.t -- ("1e-9" ** (e.t -- s.t)) \preceq e.tmin /\ e.tmax \preceq (e.t ++ ("1e-9" ** (e.t -- s.t))))>>,
             <<"data handed out earlier is unchanged", e.intact>> >>, 1)]
    [] e.ev = "agree" ->
       [st |-> s, v |-> FirstBad([k \in 1..Len(e.states) |->
            <<"all solvers agree on the simulated system", CloseV(e.states[1], e.states[k], e.tol)>>], 1)]
VARIABLES tid, l, st, verdict
INSTANCE TraceRun
=============================================================================
