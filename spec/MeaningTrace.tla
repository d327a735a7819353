---------------------------- MODULE MeaningTrace ----------------------------
(* Histories of runs in one process: e.runs is what was run, in order, each run [M, r, how].                                          *)
EXTENDS Meaning, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* seen: the results of the first run of every meaning
Verdict(e) ==
  LET RECURSIVE F(_, _, _)
      F(k, seen, bad) ==
        IF k > Len(e.runs) THEN bad
        ELSE LET x == e.runs[k]
                 m == TLCEval(Meaning(x.M))
             IN IF \E s \in seen : s[1] = m
                THEN F(k + 1, seen, bad \cup Differ((CHOOSE s \in seen : s[1] = m)[2], x.r))
                ELSE F(k + 1, seen \cup {<<m, x.r, x.as>>}, bad \cup (IF \E s \in seen : s[3] = x.as THEN {"harness"} ELSE {}))
  IN F(1, {}, {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
