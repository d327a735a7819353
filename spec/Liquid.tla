------------------------------- MODULE Liquid -------------------------------
(* A pump in a process: a liquid enters, is mixed with what is recirculated, is pumped, gives off what is recirculated, passes a
   choke and leaves.

   The pump is asked to deliver a rate (m3 per day) at a pressure.  It runs at no less than its minimum flow (a limit of its own,
   and the line of its chart) and no less than the lowest head the chart has at that rate; what it pumps more than asked for
   recirculates, and the pressure it gives more than asked for is taken off by the choke.                                        *)
EXTENDS Pump

\* minflow: a limit in m3/h, or "none"
RECURSIVE MinRateOf(_)
MinRateOf(ch) == IF Len(ch) = 1 THEN ch[1].r[1] ELSE RMin(Head(ch).r[1], MinRateOf(Tail(ch)))
Floor(ch, minflow) == IF minflow = "none" THEN MinRateOf(ch) ELSE minflow
AcceptsMinFlow(ch, minflow) == minflow = "none" \/ RLe(MinRateOf(ch), minflow)

\* where it runs: rate in m3/h, heads in J/kg
Flow(ch, minflow, rate, head) == RMax(rate, RMax(Floor(ch, minflow), MinFlow(ch, head)))
Lift(ch, flow, head) == RMax(head, MinHead(ch, flow))
Above(x, y, exact) == IF ~exact /\ Near(x, y) THEN {TRUE, FALSE} ELSE {RLt(y, x)}
Failure(hi, fast) == IF hi /\ fast THEN "ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE" ELSE IF hi THEN "ABOVE_MAXIMUM_HEAD_AT_RATE"
                     ELSE IF fast THEN "ABOVE_MAXIMUM_PUMP_RATE" ELSE "NO_FAILURE"
Failures(ch, flow, lift, exact) == {Failure(hi, fast) : hi \in Above(lift, MaxHead(ch, flow), exact), fast \in Above(flow, MaxRateOf(ch), exact)}

\* the speed that gives a head at a rate: between those of the curves below and above
SpeedAt(ch, speeds, flow, lift) ==
  LET h == [k \in Dom(ch) |-> Line(ch[k].r, ch[k].h, flow)] n == Len(ch)
  IN IF RLe(lift, h[1]) THEN speeds[1] ELSE IF RLe(h[n], lift) THEN speeds[n]
     ELSE LET k == CHOOSE k \in 2..n : RLe(h[k - 1], lift) /\ RLt(lift, h[k])
          IN RAdd(speeds[k - 1], RDiv(RMul(RSub(lift, h[k - 1]), RSub(speeds[k], speeds[k - 1])), RSub(h[k], h[k - 1])))

\* the streams along the way: [p, m], a pressure and a mass rate (kg/h)
Streams(ps, pd, rho, rate, flow, out) ==
  LET m == RMul(rate, rho) f == RMul(flow, rho)
  IN << [p |-> ps, m |-> m], [p |-> ps, m |-> f], [p |-> out, m |-> f], [p |-> out, m |-> m], [p |-> RMin(out, pd), m |-> m] >>
Gives(ps, rho, lift) == RAdd(ps, RDiv(RMul(lift, rho), "100000"))
Way == << "INLET", "DIRECT_MIXER", "PUMP", "DIRECT_SPLITTER", "CHOKE", "OUTLET" >>
=============================================================================
