----------------------------- MODULE TrainTrace -----------------------------
(* Recorded compressor trains: one event per train of a model, as in TrainRun. *)
EXTENDS TrainRun, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) == LET sts == StagesOf(e.stages) IN UNION {PeriodFails(e, sts, e.periods[k]) : k \in Dom(e.periods)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
