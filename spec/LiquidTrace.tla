---------------------------- MODULE LiquidTrace ----------------------------
(* Recorded pump simulations of models.
   kind "run": [t, u, minflow, rate, cond, ps, pd, rho, exact] the pump and its inputs per period of the time series, [first, n] the
     periods of the model; [units, links, loop] the graph: the kinds of its units, pairs of their places and the loop from the one to the
     other; out : results per period [power, eff, work, need, head, flow, back, want, gives, speed, status, choke, valid, max, streams, passes],
     max : the highest rate per day it gives that lift, passes : the pressure of a stream sent through the pump itself
   kind "refuse": inputs that are not a pump; [why, refused]                                                                      *)
EXTENDS Liquid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Same(a, b) == IF a = "none" \/ b = "none" THEN a = b ELSE Near(a, b)

StreamsOk(s, want, rho) == /\ Len(s) = Len(want)
                           /\ \A k \in Dom(s) : Near(s[k].p, want[k].p) /\ Near(s[k].m, want[k].m) /\ Near(s[k].d, rho)
PeriodOk(e, ch, speeds, i, o) ==
  LET day == IF REq(e.cond[i], Zero) THEN Zero ELSE e.rate[i]
      rate == RDiv(day, "24")
      off == REq(day, Zero)
      ps == e.ps[i] rho == e.rho[i]
      pd == IF off /\ RLe(e.pd[i], Zero) THEN ps ELSE e.pd[i]
      need == HeadOf(ps, pd, rho)
      flow == IF off THEN Zero ELSE Flow(ch, e.minflow, rate, need)
      lift == IF off THEN Zero ELSE Lift(ch, flow, need)
      gives == IF off THEN ps ELSE Gives(ps, rho, lift)
      exact == e.exact[i] /\ RLt(Flow(ch, e.minflow, Zero, need), rate)
  IN Fails("what is asked of the pump", Near(o.need, need) /\ Near(o.want, pd))
     \cup Fails("the rate it runs at", Near(o.flow, flow) /\ Near(o.back, RSub(flow, rate)))
     \cup Fails("the head it runs at", Near(o.head, lift))
     \cup Fails("the pressure it gives", Near(o.gives, gives) /\ Near(o.passes, gives) /\ Near(o.choke, RMax(Zero, RSub(gives, pd))))
     \cup Fails("the highest rate", (\E j, k \in Dom(Fast(ch).h) : j < k /\ Near(need, Fast(ch).h[j]) /\ REq(Fast(ch).h[j], Fast(ch).h[k])) \/ Near(o.max, RMul("24", MaxRateAt(ch, need))))
     \cup Fails("validity", o.valid = (o.status = "NO_FAILURE"))
     \cup Fails("streams between the units", StreamsOk(o.streams, Streams(ps, pd, rho, rate, flow, gives), rho))
     \cup IF off THEN Fails("a pump that is not running", REq(o.power, Zero) /\ o.eff = "none" /\ o.work = "none" /\ o.speed = "none" /\ o.status = "NO_FAILURE")
          ELSE Fails("failure", o.status \in Failures(ch, flow, lift, exact))
               \cup Fails("speed", Same(o.speed, SpeedAt(ch, speeds, flow, lift)))
               \cup Fails("efficiency and power", \E f \in Efficiencies(ch, flow, lift) :
                              Near(o.eff, f) /\ Same(o.work, RDiv(lift, f)) /\ Near(o.power, PowerAt(rho, flow, lift, f)))
Verdict(e) ==
  LET ch == ChartOf(e.t, e.u)
      speeds == IF e.t.speed = <<>> THEN <<"1">> ELSE SortNums(Range(e.t.speed))
  IN IF e.kind = "refuse" THEN Fails("a pump that cannot be was accepted", e.refused)
     ELSE Fails("the way of the liquid", e.units = Way /\ e.links = [k \in 1..5 |-> <<k, k + 1>>] /\ e.loop = <<4, 2>>)
          \cup Fails("the limit of the pump", Near(e.floor, Floor(ch, e.minflow)))
          \cup IF Len(e.out) # e.n THEN {"one result per period"}
               ELSE LET speed1 == [k \in Dom(speeds) |-> speeds[k]]
                    IN UNION {PeriodOk(e, ch, speed1, e.first + k - 1, e.out[k]) : k \in 1..e.n}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
