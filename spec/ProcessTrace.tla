---------------------------- MODULE ProcessTrace ----------------------------
(* Recorded process pipelines.
   e = "solve" : a section with its stages, control and equation of state, and what was found, one after the other, for several
                 inlets and targets; a question asked again must be answered the same
   e = "unit"  : one unit on one stream: what came out, or why nothing did                                                       *)
EXTENDS Process, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
SolveEvent(e) ==
  LET sts == TLCEval([k \in Dom(e.stages) |-> [StagesOf(e.stages)[k] EXCEPT !.outs = e.stages[k].outs, !.ins = e.stages[k].ins]])
  IN UNION {SolveFails(e, sts, e.found[k]) : k \in Dom(e.found)}
     \cup Fails("the same when asked again", \A j, k \in Dom(e.found) : e.found[j].ask = e.found[k].ask => [e.found[j] EXCEPT !.us = <<>>] = [e.found[k] EXCEPT !.us = <<>>])
UnitEvent(e) ==
  LET ch == IF e.u.k = "comp" THEN CompressorChart(e.u.ch.curves, e.u.ch.margin) ELSE <<>> no == Cannot(e.u, e.a, e.eos, ch, e.n)
      edge == e.u.k = "comp" /\ (RClose(Flow(e.a), LeastAt(ch, e.n), "1/100000000", Zero) \/ RClose(Flow(e.a), MostAt(ch, e.n), "1/100000000", Zero))
  IN (IF edge THEN Fails("what can be done", e.err \in {"none", "surge", "stonewall", "liquid"}) ELSE IF no # {} THEN Fails("what can not be done", e.err \in no) ELSE Fails("what can be done", e.err = "none"))
       \cup IF e.err = "none" THEN UnitFails(e.u, e.a, e.b, e.eos, ch, e.n) \cup WellFormed(e.b, e.eos) ELSE {}
Verdict(e) == IF e.e = "line" THEN LineFails(e) ELSE IF e.e = "spare" THEN SpareFails(e) ELSE IF e.e = "solve" THEN SolveEvent(e) ELSE UnitEvent(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
