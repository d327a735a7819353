---------------------------- MODULE SimpleTrace ----------------------------
(* Recorded simplified trains: one event per train, [m, reg, factor, const, maxpower, max, allowed, stages, charts, periods];
   allowed: the pressure ratio allowed per stage where the number of stages is left open, else zero; charts: as reported.       *)
EXTENDS Simple, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Loose == "1/1000000"
Fits(a, b) == a = b \/ (a # "nan" /\ b # "nan" /\ RClose(a, b, Loose, "1/100000000"))
Kilo(x) == RDiv(x, "1000")
Sm(e, p) == IF REq(e.reg, Zero) \/ ~p.cond THEN Zero ELSE RDiv(p.rate, e.reg)
RatioOf(p) == RDiv(p.pd, p.ps)

\* the stages as they have to be: as many as given, or as few as the ratio allows; their charts as designed
StagesFail(e) ==
  LET n == Len(e.charts) rs == [k \in Dom(e.periods) |-> RatioOf(e.periods[k])]
      st(k) == IF REq(e.allowed, Zero) THEN e.stages[k] ELSE e.stages[1]
      SameChart(a, b) == Len(a) = Len(b) /\ \A k \in Dom(a) : Fits(a[k].n, b[k].n) /\ Len(a[k].r) = Len(b[k].r) /\ \A i \in Dom(a[k].r) : Fits(a[k].r[i], b[k].r[i]) /\ Fits(a[k].h[i], b[k].h[i]) /\ Fits(a[k].e[i], b[k].e[i])
      Design(c) == Generic(RDiv(c[2].r[1], Unified[2].r[1]), RDiv(c[2].h[1], Unified[2].h[1]), c[1].e[1])
  IN Fails("number of stages", IF REq(e.allowed, Zero) THEN n = Len(e.stages) ELSE Enough(n, RMul(e.allowed, "1000001/1000000"), rs) /\ (n > 1 => ~Enough(n - 1, e.allowed, rs)))
     \cup Fails("chart of the design point", \A k \in 1..n : st(k).kind = "design" => SameChart(e.charts[k], Generic(st(k).rate, st(k).head, st(k).eff)))
     \cup Fails("chart found from the input", \A k \in 1..n : st(k).kind = "input" => SameChart(e.charts[k], Design(e.charts[k])) /\ Fits(e.charts[k][1].e[1], st(k).eff))

TempOf(e, k) == IF REq(e.allowed, Zero) THEN e.stages[k].t ELSE e.stages[1].t
KindOf(e, k) == IF REq(e.allowed, Zero) THEN e.stages[k].kind ELSE e.stages[1].kind
StreamFails(what, s, m, t, p) ==
  Fails(what \o " pressure", Fits(s.p, p)) \cup Fails(what \o " temperature", Fits(s.t, t))
  \cup Fails(what \o " density", Fits(s.rho, DensityOf(m, t, p))) \cup Fails(what \o " compressibility", Fits(s.z, ZOf(m, p)))
StageFails(e, k, mass, p1, p2, r) ==
  LET t == TempOf(e, k) s == Lift(e.charts[k], e.m, mass, t, p1, p2) m == e.m
      dh == RDiv(s.c.g, s.eff) t2 == TemperatureAt(m, RAdd(EnthalpyOf(m, t, p1), dh), p2)
      m2 == RMul(s.c.q, s.rho) power == RDiv(RMul(m2, dh), "3600000000") sd == StandardDensity(m)
      out == DensityOf(m, t2, p2)
  IN StreamFails("stage inlet", r.i, m, t, p1) \cup StreamFails("stage outlet", r.o, m, t2, p2)
     \cup Fails("rates of a stage", Fits(r.m, mass) /\ Fits(r.m2, m2) /\ Fits(r.i.q, s.q) /\ Fits(r.i.q2, s.c.q) /\ Fits(r.i.sm, RDiv(RMul(mass, "24"), sd)) /\ Fits(r.i.sm2, RDiv(RMul(m2, "24"), sd)))
     \cup Fails("outlet rates of a stage", Fits(r.o.q, RDiv(mass, out)) /\ Fits(r.o.q2, RDiv(m2, out)))
     \cup Fails("head of a stage", Fits(r.head, Kilo(s.c.g))) \cup Fails("efficiency of a stage", Fits(r.eff, s.eff))
     \cup Fails("enthalpy rise of a stage", Fits(r.dh, Kilo(dh)) /\ Fits(r.dh0, Kilo(RDiv(s.h, s.eff))))
     \cup Fails("recirculation loss", r.power = "nan" \/ RClose(r.loss, RDiv(RMul(RSub(r.m2, r.m), Kilo(dh)), "3600000"), Loose, "1/1000000"))
     \cup (IF Clear(s)
           THEN Fails("capacity of a stage", r.valid = ~(s.rex \/ s.hex))
                \cup Fails("place of a stage in its chart", r.flag = FlagOf(s.recirc, s.choked, s.rex, s.hex) /\ r.recirc = s.recirc /\ r.choked = s.choked /\ r.rex = s.rex /\ r.hex = s.hex)
           ELSE {})
     \cup Fails("power of a stage", IF r.valid THEN Fits(r.power, power) ELSE r.power = "nan") \cup Fails("no speed", r.speed = "nan")
     \cup Fails("found from the input to cover it", KindOf(e, k) = "input" => r.valid)

\* a chart found from the input is no larger than the input asks: a tenth smaller, it would not do
Tight(e) ==
  LET n == Len(e.charts) busy == {j \in Dom(e.periods) : RLt(Zero, Sm(e, e.periods[j]))}
      \* idle periods count with their pressures; heads below the slowest curve are not choked up to it
      from(p, k) == RMul(p.ps, RPow(RatioOf(p), RDiv(k - 1, n))) to(p, k) == RMul(p.ps, RPow(RatioOf(p), RDiv(k, n)))
      Small(c) == Generic(RMul("9/10", RDiv(c[2].r[1], Unified[2].r[1])), RMul("9/10", RDiv(c[2].h[1], Unified[2].h[1])), c[1].e[1])
  IN \A k \in 1..n : KindOf(e, k) = "input" /\ busy # {} =>
       LET c == Small(e.charts[k]) IN \E j \in Dom(e.periods) : LET p == e.periods[j] s == Lift(c, e.m, RDbl(MassRate(e.m, Sm(e, p))), TempOf(e, k), RDbl(from(p, k)), RDbl(to(p, k))) IN s.rex \/ s.hex \/ RLt(WallAt(c, s.h, FALSE), s.q)

PeriodFails(e, p) ==
  LET o == p.o N == Len(e.charts) sm == Sm(e, p) mass == RDbl(MassRate(e.m, sm)) ratio == PerStage(RatioOf(p), N)
      Pressure[k \in 0..N] == IF k = 0 THEN p.ps ELSE RDbl(RMul(Pressure[k - 1], ratio))
      bad == \E k \in 1..N : o.stages[k].power = "nan"
      power == IF bad THEN "nan" ELSE RSum([k \in 1..N |-> o.stages[k].power])
      adj == IF bad THEN "nan" ELSE IF RLt(Zero, power) THEN RAdd(RMul(power, e.factor), e.const) ELSE power
      flow == {k \in 1..N : ~o.stages[k].valid /\ o.stages[k].flag \in {"ABOVE_MAXIMUM_FLOW_RATE", "BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE", "BELOW_MINIMUM_FLOW_RATE", "BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE"}}
      first == CHOOSE k \in flow : \A j \in flow : k <= j
      limit == RLt(Zero, e.maxpower) /\ ~bad /\ RLt(e.maxpower, power)
      \* a search for the head, told apart from that without what the compression does to the gas only to a point
      rough == MinOf([k \in 1..N |-> LET t == TempOf(e, k) p1 == Pressure[k - 1] IN RateAt(e.charts[k], e.m, t, p1, CampbellBy(e.m, t, p1, Pressure[k], e.charts[k][1].e[1], ZOf(e.m, p1), KappaOf(e.m, t, p1)))])
      most == MinOf([k \in 1..N |-> RateAt(e.charts[k], e.m, TempOf(e, k), Pressure[k - 1], Campbell(e.m, TempOf(e, k), Pressure[k - 1], Pressure[k], e.charts[k][1].e[1]))])
  IN Fails("rate reported", Fits(o.rate, sm)) \cup Fails("pressures reported", Fits(o.rps, p.ps) /\ Fits(o.rpd, p.pd))
     \cup Fails("power of the train", Fits(o.power, adj) /\ Fits(o.energy, adj))
     \cup Fails("power of the consumer", IF bad THEN o.cpower = "nan" /\ o.cenergy = "nan" ELSE Fits(o.cpower, RDiv(adj, RSub(One, p.plf))) /\ Fits(o.cenergy, o.cpower))
     \cup IF REq(sm, Zero) THEN Fails("at rest", o.fail = "NO_FAILURE" /\ o.valid /\ o.cvalid /\ REq(o.power, Zero))
          ELSE UNION {StageFails(e, k, mass, Pressure[k - 1], Pressure[k], o.stages[k]) : k \in 1..N}
               \cup Fails("validity", o.valid = (~bad /\ ~limit) /\ o.cvalid = o.valid)
               \cup Fails("failure told", o.fail = IF flow # {} THEN (IF o.stages[first].flag \in {"ABOVE_MAXIMUM_FLOW_RATE", "BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE"} THEN "ABOVE_MAXIMUM_FLOW_RATE" ELSE "BELOW_MINIMUM_FLOW_RATE")
                                                 ELSE IF limit THEN "ABOVE_MAXIMUM_POWER" ELSE "NO_FAILURE")
               \cup Fails("inlet and outlet of the train", Fits(o.inlet.p, p.ps) /\ Fits(o.inlet.t, TempOf(e, 1)) /\ Fits(o.outlet.p, p.pd))
     \cup IF ~e.max \/ REq(e.reg, Zero) \/ ~p.cond THEN {}
          ELSE Fails("highest rate", RLe(RMul(RMin(most, rough), "997/1000"), o.most) /\ RLe(o.most, RMul(RMax(most, rough), "1003/1000")))
Verdict(e) == StagesFail(e) \cup Fails("no larger than the input asks", Tight(e)) \cup UNION {PeriodFails(e, e.periods[k]) : k \in Dom(e.periods)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
