------------------------------ MODULE Initial ------------------------------
(* Initial states (C21).  What a user configures for the states of a motor or load:                       *)
(*   given   sequence of <<name, value>>, in the user's order (states not named start at 0)               *)
(*   mode    "const" | "uniform" | "gaussian"                                                             *)
(*   rows    sequence of <<name, low, high>>: configured intervals of random states (<<>>: none)          *)
EXTENDS Flt
(* the value configured for a name: the one given under this name, wherever it stands *)
RECURSIVE ByName(_, _, _)
ByName(given, name, k) ==
  IF k > Len(given) THEN 0 ELSE IF given[k][1] = name THEN given[k][2] ELSE ByName(given, name, k + 1)
RowOf(rows, name) == IF \E k \in DOMAIN rows : rows[k][1] = name
                     THEN rows[CHOOSE k \in DOMAIN rows : rows[k][1] = name] ELSE <<name, "-Infinity", "Infinity">>
(* what the state's nominal value and the lower end of its space permit, intersected with the configured interval *)
Lower(rows, name, nominal, low) == FMax(nominal ** low, RowOf(rows, name)[2])
Upper(rows, name, nominal) == FMin(nominal, RowOf(rows, name)[3])
InBounds(x, rows, name, nominal, low) ==
  /\ (Lower(rows, name, nominal, low) -- ("1e-9" ** (1 ++ FAbs(nominal)))) \preceq x
  /\ x \preceq (Upper(rows, name, nominal) ++ ("1e-9" ** (1 ++ FAbs(nominal))))
(* may an episode start with value x at this state? *)
MayStart(x, i, name, nominal, low) ==
  IF i.mode = "const" THEN FClose(x, ByName(i.given, name, 1), "1e-9", "1e-12")
  ELSE InBounds(x, i.rows, name, nominal, low)
(* a normally distributed value lies around the given mean, by default around the middle of the permitted interval, *)
(* with the given standard deviation, by default one                                                               *)
Centre(i, name, nominal, low) ==
  IF i.mu = "none" THEN (Lower(i.rows, name, nominal, low) ++ Upper(i.rows, name, nominal)) // 2 ELSE i.mu
Deviation(i) == IF i.sigma = "none" THEN 1 ELSE i.sigma
AroundCentre(x, i, name, nominal, low) ==
  LET m == Centre(i, name, nominal, low) IN
  i.mode # "gaussian" \/ ~InBounds(m, i.rows, name, nominal, low) \/ FClose(x, m, 0, 8 ** Deviation(i))
(* is the configuration one that can start at all (constants inside the permitted interval)? *)
Startable(i, name, nominal, low) ==
  i.mode # "const" \/ InBounds(ByName(i.given, name, 1), <<>>, name, nominal, low)
=============================================================================
