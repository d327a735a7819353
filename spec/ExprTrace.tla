----------------------------- MODULE ExprTrace -----------------------------
(* Recorded readings and evaluations of expression texts.  An event has the tokens x the text was made of, the values env of
   the references in n periods, and what happened: res = "value" with the values v, "rejected", or "missing" when a
   reference is unknown.                                                                                        *)
EXTENDS Expr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Fails(name, ok) == IF ok THEN {} ELSE {name}
Known(e) == Refs(e.x) \subseteq DOMAIN e.env
Verdict(e) ==
  IF WellFormed(e.x) THEN
    IF Known(e) THEN
      Fails("a well-formed expression has a value in every period", e.res = "value" /\ Len(e.v) = e.n)
      \cup Fails("the value of the expression", e.res = "value" /\ Len(e.v) = e.n =>
               \A i \in 1..e.n : Near(e.v[i], Eval(e.x, e.env, i)))
      \cup Fails("the references of the expression", e.res = "value" => Range(e.refs) = Refs(e.x))
      \cup Fails("the expression written out and read again has the same values", e.res = "value" => NearSeq(e.again, e.v))
    ELSE Fails("an unknown reference is refused", e.res \in {"rejected", "missing"})
  ELSE IF Malformed(e.x) THEN Fails("a malformed expression is refused", e.res = "rejected")
  ELSE {}

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
