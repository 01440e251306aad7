---------------------------- MODULE TraceBase ----------------------------
(* Common part of all trace specifications.  Traces (one per line of the   *)
(* file named by the environment variable TRACES) are sequences of events; *)
(* each is walked event by event by one behaviour:                         *)
(*   TInit /\ [][TNext]_tvars                                               *)
(* A trace specification supplies                                          *)
(*   Init0          the abstract state before the first event              *)
(*   Step(s, e)     [st |-> next abstract state, v |-> verdict]            *)
(* where the verdict is "ok" or the name of the violated clause.  The      *)
(* verdict is total: a trace is never stuck, the first bad event is named. *)
EXTENDS Flt, TLC, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)

Has(r, f) == f \in DOMAIN r
Get(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt
OK(s) == [st |-> s, v |-> "ok"]
BAD(s, name) == [st |-> s, v |-> name]
(* first failing clause of a sequence of <<name, condition>> pairs *)
RECURSIVE FirstBad(_, _)
FirstBad(cl, i) == IF i > Len(cl) THEN "ok" ELSE IF cl[i][2] THEN FirstBad(cl, i + 1) ELSE cl[i][1]
=============================================================================
