------------------------------ MODULE MCEnv ------------------------------
(* Design of the environment protocol: all call histories up to Depth.     *)
EXTENDS Env, TLC, Json, FiniteSets
CONSTANTS Depth, Calls
StepCalls == {"safe", "partial", "viol"}
VARIABLES s, calls, log, last
vars == <<s, calls, log, last>>

Init == s = EnvFresh /\ calls = <<>> /\ log = <<>> /\ last = "none"
Reset(c) == /\ c \in {"reset", "resetseed"}
            /\ s' = ResetNext(s) /\ log' = log \o ResetEvents(s) /\ last' = "reset"
StepEnv(c) == /\ c \in StepCalls /\ Accepts(s)
              /\ s' = StepNext(s, c = "viol") /\ log' = log \o StepEvents(s, c = "viol")
              /\ last' = IF c = "viol" THEN "terminated" ELSE "stepped"
Refuse(c) == /\ c \in StepCalls /\ ~Accepts(s)
             /\ UNCHANGED <<s, log>> /\ last' = "refused"
Exchange(c) == /\ c \in {"swap_rg", "swap_rf"}
               /\ s' = ExchangeNext(s) /\ UNCHANGED log /\ last' = "exchanged"
Close(c) == /\ c = "close" /\ s' = CloseNext(s) /\ log' = log \o CloseEvents /\ last' = "closed"
Next == /\ Len(calls) < Depth
        /\ \E c \in Calls : /\ calls' = Append(calls, c)
                            /\ Reset(c) \/ StepEnv(c) \/ Refuse(c) \/ Exchange(c) \/ Close(c)
Spec == Init /\ [][Next]_vars

(* ---- properties of the design -------------------------------------------- *)
Accepted(i) == calls[i] \in StepCalls
LastReset == LET R == {i \in DOMAIN calls : calls[i] \in {"reset", "resetseed"}} IN
             IF R = {} THEN 0 ELSE CHOOSE i \in R : \A j \in R : j <= i
(* an episode runs from a reset to the first violation or exchange after it *)
RunningIff == (s.phase = "running") <=>
    (LastReset > 0 /\ \A i \in DOMAIN calls : i > LastReset => calls[i] \notin {"viol", "swap_rg", "swap_rf"})
Ends(from) == Cardinality({i \in from..Len(log) : log[i].ev = "step_end"})
LastResetEnd == LET R == {i \in DOMAIN log : log[i].ev = "reset_end"} IN
                IF R = {} THEN 0 ELSE CHOOSE i \in R : \A j \in R : j <= i
CountsSteps == s.k = Ends(LastResetEnd + 1)
(* the event stream consists of complete begin/end pairs and closes *)
WellFormedLog == \A i \in DOMAIN log :
    /\ log[i].ev = "reset_begin" => i < Len(log) /\ log[i+1].ev = "reset_end"
    /\ log[i].ev = "step_begin" => i < Len(log) /\ log[i+1].ev = "step_end" /\ log[i+1].k = log[i].k + 1
    /\ log[i].ev = "reset_end" => i > 1 /\ log[i-1].ev = "reset_begin"
    /\ log[i].ev = "step_end" => i > 1 /\ log[i-1].ev = "step_begin"
NothingAfterTermination == \A i \in DOMAIN log :
    (log[i].ev = "step_end" /\ log[i].term /\ i < Len(log)) => log[i+1].ev \in {"reset_begin", "close"}
RefusedSilent == [][last' = "refused" => log' = log /\ s' = s]_vars

(* scenarios for the conformance driver: all complete call histories *)
Emit == Len(calls) = Depth => PrintT("GEN|" \o ToJson(calls))
=============================================================================
