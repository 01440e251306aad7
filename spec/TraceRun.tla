----------------------------- MODULE TraceRun -----------------------------
(* The behaviours of a trace specification (see TraceBase). Instantiated   *)
(* with Init0 and Step of the trace specification.                         *)
EXTENDS TraceBase
CONSTANTS Init0, Step(_, _)
VARIABLES tid, l, st, verdict
tvars == <<tid, l, st, verdict>>
TInit == tid \in DOMAIN Traces /\ l = 0 /\ st = Init0 /\ verdict = "ok"
TNext == /\ verdict = "ok" /\ l < Len(Traces[tid])
         /\ LET r == Step(st, Traces[tid][l + 1]) IN
            /\ st' = r.st /\ verdict' = r.v
            /\ IF r.v = "ok" THEN TRUE ELSE PrintT("FAIL|" \o ToString(tid) \o "|" \o ToString(l + 1) \o "|" \o r.v)
            (* a note is reported like a failure but the trace is followed further *)
            /\ IF Get(r, "note", "ok") = "ok" THEN TRUE
               ELSE PrintT("NOTE|" \o ToString(tid) \o "|" \o ToString(l + 1) \o "|" \o r.note)
         /\ l' = l + 1 /\ tid' = tid
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
