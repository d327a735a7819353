-------------------------- MODULE DistributionTrace --------------------------
(* Recorded distributions of streams.
   e = "share"  : [q, frac, cap, to, out] the rate of the stream and the parts of it the items are due, what they can take, where they
                  overflow, and the rates of the streams handed out; same : are the streams otherwise as the one shared; n : how many are told
   e = "cycle"  : [to, refused]
   e = "choose" : [ways, cap, out] several distributions in order of preference, each a sequence of rates, and the one chosen
   e = "each"   : [ways, out, n] streams given one by one                                                                        *)
EXTENDS Distribution, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Verdict(e) ==
  CASE e.e = "share" -> LET own == [i \in DOMAIN e.frac |-> RMul(e.q, e.frac[i])] s == Share(own, e.cap, e.to)
                        IN Fails("share of each item", NearSeq(e.out, s))
                           \cup Fails("the same when asked again", e.again = e.out)
                           \cup Fails("nothing is lost", Near(RSum(e.out), RSum(own)))
                           \cup Fails("the stream shared", e.same)
                           \cup Fails("number of streams", e.n = Len(e.frac))
    [] e.e = "cycle" -> Fails("circular overflow", Cyclic(e.to) = e.refused)
    [] e.e = "choose" -> Fails("the first that can be taken", NearSeq(e.out, e.ways[FirstFit(e.cap, e.ways)])) \cup Fails("number of streams", e.n = Len(e.cap))
    [] e.e = "each" -> Fails("one stream each", NearSeq(e.out, e.ways) /\ e.n = Len(e.ways))
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
