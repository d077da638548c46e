------------------------------ MODULE TraceBase ------------------------------
(* Runs recorded traces against an area specification.  Each line of the     *)
(* trace file is one trace [id |-> _, ev |-> <<event, ...>>] recorded from   *)
(* the implementation.  Start gives the specification state before the first *)
(* event; Judge gives, for an event and a state, the verdict (the name of    *)
(* the violated clause, or "ok") and the successor state.  The verdict is    *)
(* total: an event is never silently skipped.                                *)
EXTENDS Lin, Json, IOUtils
CONSTANTS Judge(_, _), Start(_)
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, verdict
tvars == <<tid, l, st, verdict>>
(* a scenario that could not be carried out, because the implementation      *)
(* raised an error where the scenario needs a result, is a violation; so are *)
(* recorded data for which the specification's expressions are not defined   *)
(* (wrong shape), which Total turns into a verdict                            *)
Failed(e) == [v |-> "not carried out: " \o e.err, st |-> st]
Unfit == [v |-> "recorded data do not have the required form", st |-> st]
Verdict(e) == IF e.op = "failed" THEN Failed(e) ELSE Judge(e, st)
Total(r, d) == r
TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1 /\ verdict = "ok"
             /\ st = Start(Traces[tid])
TraceNext == /\ verdict = "ok" /\ l <= Len(Traces[tid].ev)
             /\ LET r == Total(TLCEval(Verdict(Traces[tid].ev[l])), Unfit)
                IN st' = r.st /\ verdict' = r.v
             /\ l' = l + 1 /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == verdict = "ok"
Brief == [tid |-> tid, event |-> l - 1, verdict |-> verdict]
=============================================================================
