--------------------------- MODULE ValidityTrace ---------------------------
(* Recorded attempts to run models: e.M the model, e.out what became of it: "run", "refused" (with a message) or "crash". *)
EXTENDS Validity, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) ==
  LET p == Problems(e.M) IN
  IF e.out = "crash" THEN {"ended with an error of its own"} \cup p
  ELSE IF p # {} THEN (IF e.out = "refused" THEN {} ELSE {"accepted although there is: "} \cup p)
  ELSE IF e.out = "refused" /\ Unsure(e.M) = {} THEN {"refused although nothing is wrong"} ELSE {}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
