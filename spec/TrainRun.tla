------------------------------ MODULE TrainRun ------------------------------
(* What a reported run of a compressor train must agree with: a train [m, control, single, reg, factor, const, maxpower, maxp, max,
   stages, periods], and per period what was asked and o, what was reported.  maxpower, maxp: zero if there is none.            *)
EXTENDS Train
Fails(name, ok) == IF ok THEN {} ELSE {name}
Loose == "1/1000000"
Fits(a, b) == a = b \/ (a # "nan" /\ b # "nan" /\ RClose(a, b, Loose, "1/100000000"))
Kilo(x) == RDiv(x, "1000")

\* --- what every reported stage must agree with, whatever was decided: r the report, i the gas arriving, n the speed -------------------
StreamFails(what, s, m, t, p) ==
  Fails(what \o " pressure", Fits(s.p, p)) \cup Fails(what \o " temperature", Fits(s.t, t))
  \cup Fails(what \o " density", Fits(s.rho, DensityOf(m, t, p))) \cup Fails(what \o " compressibility", Fits(s.z, ZOf(m, p)))
  \cup Fails(what \o " kappa", Fits(s.kappa, KappaOf(m, t, p)))
StageFails(st, i, r, n) ==
  LET o == PointOf(st.ch, n, i.q, r.i.q2, FALSE, TRUE)
      lo == LeastAt(st.ch, n) hi == MostAt(st.ch, n)
      edge == RClose(i.q, lo, "1/100000000", Zero) \/ RClose(i.q, hi, "1/100000000", Zero)
      dh == RDiv(o.head, o.eff)
      t2 == TemperatureAt(i.m, RAdd(EnthalpyOf(i.m, i.t, i.p), dh), r.o.p)
      sd == StandardDensity(i.m)
      out == DensityOf(i.m, t2, r.o.p)
  IN StreamFails("stage inlet", r.i, i.m, i.t, i.p) \cup StreamFails("stage outlet", r.o, i.m, t2, r.o.p)
     \cup Fails("mass rate of a stage", Fits(r.m, i.mass)) \cup Fails("rate of a stage", Fits(r.i.q, i.q))
     \cup Fails("mass rate with recirculation", Fits(r.m2, RMul(r.i.q2, i.rho)))
     \cup Fails("not left of the lowest rate", RLe(RMul(lo, "999999/1000000"), r.i.q2))
     \cup Fails("recirculation is not negative", RLe(RMul(r.m, "999999999/1000000000"), r.m2))
     \cup Fails("standard rates of a stage", Fits(r.i.sm, RDiv(RMul(i.mass, "24"), sd)) /\ Fits(r.i.sm2, RDiv(RMul(r.m2, "24"), sd)) /\ r.o.sm = r.i.sm /\ r.o.sm2 = r.i.sm2)
     \cup Fails("outlet rates of a stage", Fits(r.o.q, RDiv(i.mass, out)) /\ Fits(r.o.q2, RDiv(r.m2, out)))
     \cup Fails("head of a stage", Fits(r.head, Kilo(o.head))) \cup Fails("efficiency of a stage", Fits(r.eff, o.eff))
     \cup Fails("enthalpy rise of a stage", Fits(r.dh, Kilo(dh)))
     \cup Fails("pressure a stage gives", RClose(r.o.p, OutletPressure(i, RDbl(o.head), RDbl(o.eff)), IF RLt(RMul(i.p, "8"), r.o.p) THEN "2/100" ELSE "2/1000", Zero))
     \cup Fails("power of a stage", Fits(r.power, RDiv(RMul(r.m2, dh), "3600000000")) /\ r.energy = r.power)
     \cup Fails("recirculation loss", Fits(r.loss, RDiv(RMul(RSub(r.m2, r.m), Kilo(dh)), "3600000")) \/ RClose(r.loss, RDiv(RMul(RSub(r.m2, r.m), Kilo(dh)), "3600000"), Zero, "1/1000000"))
     \cup Fails("place of a stage in its chart", edge \/ r.flag = o.flag) \cup Fails("validity of a stage", edge \/ r.valid = o.valid)
     \cup Fails("speed of a stage", r.speed = n)
RECURSIVE Chain(_, _, _, _, _, _)
\* the gas follows from stage to stage, by the pressures reported
Chain(sts, rs, m, mass, p, n) ==
  IF sts = <<>> THEN {}
  ELSE LET i == Arriving(Head(sts), m, mass, p)
       IN StageFails(Head(sts), i, Head(rs), n) \cup Chain(Tail(sts), Tail(rs), i.m, i.mass, Head(rs).o.p, n)

\* --- which speed, and how the pressure is controlled -------------------------------------------------------------------------------
Failures == {"NO_FAILURE", "ABOVE_MAXIMUM_POWER"}
Ok(o) == o.fail \in Failures
Plain(sts, o) == \A k \in Dom(sts) : RClose(o.stages[k].i.q2, RMax(o.stages[k].i.q, LeastAt(sts[k].ch, o.stages[1].speed)), Loose, Zero)
SpeedIs(o, n) == RClose(o.stages[1].speed, n, "2/100000", Zero)
Delivers(o, p) == Meets(o.stages[Len(o.stages)].o.p, p)
\* the share of the room left in the charts that is recirculated: the least of the stages' (others are held up by their lowest rate)
Shares(sts, o) == [k \in Dom(sts) |-> LET r == o.stages[k].i hi == MostAt(sts[k].ch, o.stages[1].speed)
                                      IN IF RLe(hi, r.q) THEN One ELSE RDbl(RDiv(RSub(r.q2, r.q), RSub(hi, r.q)))]
Extra(o, k) == RSub(o.stages[k].m2, o.stages[k].m)
ExtraMass(o) == MinOf([k \in Dom(o.stages) |-> Extra(o, k)])
\* pressure control at the speed reported, which leaves the train above the pressure asked
Controlled(e, sts, m, mass, p, o) ==
  LET n == o.stages[1].speed N == Len(sts)
      ByShare == LET f == MinOf(Shares(sts, o)) IN \A k \in 1..N : RClose(o.stages[k].i.q2, Through(sts[k], [q |-> o.stages[k].i.q, rho |-> o.stages[k].i.rho], n, ShareOf(f)), "1/100000", Zero)
      ByMass == LET g == ExtraMass(o) IN \A k \in 1..N : RClose(o.stages[k].i.q2, Through(sts[k], [q |-> o.stages[k].i.q, rho |-> o.stages[k].i.rho], n, MassOf(g)), "1/100000", Zero)
  IN CASE e.control = "DOWNSTREAM_CHOKE" ->
            Fails("choked downstream", Ok(o) => Fits(o.outlet.p, p.pd))
            \cup Fails("capacity with a downstream choke", Ok(o) \/ REq(e.maxp, Zero) = FALSE)
            \cup Fails("no recirculation beyond the lowest rate", Plain(sts, o))
       [] e.control = "UPSTREAM_CHOKE" ->
            Fails("choked upstream", Delivers(o, p.pd)) \cup Fails("no recirculation beyond the lowest rate", Plain(sts, o))
            \cup Fails("choking lowers the pressure", RLe(o.stages[1].i.p, RMul(RSub(p.ps, sts[1].drop), "1001/1000")))
            \cup Fails("capacity with an upstream choke", Ok(o) = (\A k \in 1..N : o.stages[k].valid))
       [] e.control = "INDIVIDUAL_ASV_RATE" ->
            LET full == Outlet(Along(sts, m, mass, p.ps, n, ShareOf(One)))
            IN Fails("the same share of the room recirculated in all stages", ByShare)
               \cup Fails("pressure by recirculation", Ok(o) => Delivers(o, p.pd))
               \cup Fails("capacity with recirculation",
                          \* recirculation lowers the pressures between the stages: a later stage may then be asked for more than it takes
                          IF \A k \in 1..N : o.stages[k].valid THEN (Over(p.pd, full) => Ok(o)) /\ (Over(full, p.pd) => o.fail = "TARGET_DISCHARGE_PRESSURE_TOO_LOW" /\ RClose(MinOf(Shares(sts, o)), One, Loose, Zero))
                          ELSE o.fail = "ABOVE_MAXIMUM_FLOW_RATE" /\ (Delivers(o, p.pd) \/ RClose(MinOf(Shares(sts, o)), One, Loose, Zero)))
       [] e.control = "INDIVIDUAL_ASV_PRESSURE" ->
            LET ratio == RPow(RDiv(p.pd, p.ps), RDiv(One, N))
                from(k) == IF k = 1 THEN p.ps ELSE o.stages[k - 1].o.p
            IN Fails("pressure by recirculation", Ok(o) => Delivers(o, p.pd))
               \cup Fails("the same pressure ratio in all stages", Ok(o) /\ (\A k \in 1..N : REq(sts[k].drop, Zero) /\ ~RClose(o.stages[k].i.q2, MostAt(sts[k].ch, n), "1/10000", Zero)) => \A k \in 1..N : RClose(o.stages[k].o.p, RMul(from(k), ratio), "2/1000", Zero))
               \cup Fails("a stage recirculates only to lower its pressure", \A k \in 1..N :
                     RClose(o.stages[k].i.q2, RMax(o.stages[k].i.q, LeastAt(sts[k].ch, n)), Loose, Zero) \/ RLe(RMul(from(k), ratio), RMul(o.stages[k].o.p, "1002/1000")))
               \cup Fails("a stage recirculates as much as it can before it gives too high a pressure", \A k \in 1..N :
                     o.stages[k].valid /\ RLt(RMul(RMul(from(k), ratio), "1002/1000"), o.stages[k].o.p) => RClose(o.stages[k].i.q2, MostAt(sts[k].ch, n), "1/10000", Zero))
       [] OTHER ->
            Fails("pressure by recirculation", Ok(o) => Delivers(o, p.pd))
            \cup Fails("the same mass recirculated in all stages", Ok(o) => ByMass)
            \cup LET i == Arriving(sts[1], m, mass, p.ps)
                     a == RMax(mass, RMul(LeastAt(sts[1].ch, n), i.rho)) b == RMul(MostAt(sts[1].ch, n), i.rho)
                     mid(j) == RDbl(RAdd(a, RMul(RSub(b, a), RDiv(j, "12"))))
                     run == TLCEval([j \in 1..11 |-> Along(sts, m, mid(j), p.ps, n, Nothing)])
                     common == {j \in 1..11 : \A k \in 1..N : run[j][k].flag = "INTERNAL_POINT"}
                 IN Fails("capacity with a common recirculation", REq(i.mass, mass) /\ (\E j, j2 \in common : Over(Outlet(run[j]), p.pd) /\ Below(Outlet(run[j2]), p.pd)) => Ok(o))

Decided(e, sts, m, mass, p, o) ==
  LET lo == Slowest(sts) hi == Fastest(sts)
      At(n) == Along(sts, m, mass, p.ps, n, Nothing)
      top == At(hi) low == At(lo)
      n == o.stages[1].speed
      here == At(n)
      Above == Fails("rate above the highest", o.fail = "ABOVE_MAXIMUM_FLOW_RATE" /\ SpeedIs(o, hi))
      High == Fails("pressure above what the train gives", o.fail = "TARGET_DISCHARGE_PRESSURE_TOO_HIGH" /\ SpeedIs(o, hi) /\ Plain(sts, o))
      Solved == Fails("pressure met by speed", Ok(o) /\ Delivers(o, p.pd) /\ Plain(sts, o))
      Control == Controlled(e, sts, m, mass, p, o)
  IN IF Over(Room(top), One) THEN Above
     ELSE IF ~Below(Room(top), One) THEN {}
     ELSE IF Below(Outlet(top), p.pd) THEN High
     ELSE IF ~Over(Outlet(top), p.pd) THEN {}
     ELSE IF Below(Room(low), One)
          THEN IF Over(Outlet(low), p.pd) THEN Fails("slowest speed", SpeedIs(o, lo)) \cup Control
               ELSE IF Below(Outlet(low), p.pd) THEN Solved
               ELSE {}
     ELSE IF ~Over(Room(low), One) THEN {}
     ELSE \* the train must run faster than its slowest to take the rate
          IF Over(Outlet(here), p.pd) THEN Fails("slowest speed that takes the rate", RClose(Room(here), One, "1/100", Zero)) \cup Control
          ELSE IF Below(Outlet(here), p.pd) THEN {"pressure met by speed"}
          ELSE IF Below(Room(here), One) THEN Solved
          ELSE {}

\* the failure told is that of the first stage outside its chart, else of the pressure the train gives
FailureFails(p, o) ==
  LET out == {k \in Dom(o.stages) : ~o.stages[k].valid} k == CHOOSE i \in out : \A j \in out : i <= j
      d == RSub(o.outlet.p, p.pd) near == RMul(p.pd, "999/1000000") far == RMul(p.pd, "1001/1000000")
  IN Fails("failure told", IF out # {} THEN o.fail = o.stages[k].flag
                           ELSE /\ (RLe(d, near) /\ RLe(RNeg(near), d) => Ok(o))
                                /\ (RLt(far, d) => o.fail = "TARGET_DISCHARGE_PRESSURE_TOO_LOW")
                                /\ (RLt(d, RNeg(far)) => o.fail = "TARGET_DISCHARGE_PRESSURE_TOO_HIGH"))
PeriodFails(e, sts, p) ==
  LET o == p.o N == Len(sts)
      sm == IF REq(e.reg, Zero) \/ ~p.cond THEN Zero ELSE RDiv(p.rate, e.reg)
      power == RSum([k \in 1..N |-> o.stages[k].power])
      adj == IF RLt(Zero, power) THEN RAdd(RMul(power, e.factor), e.const) ELSE power
      mass == RDbl(MassRate(e.m, sm))
      idle == REq(sm, Zero) /\ \A k \in 1..N : \A j \in Dom(sts[k].ins) : REq(sts[k].ins[j].sm, Zero)
      \* upstream choking changes the pressure the first stage gets
      from == IF e.control = "UPSTREAM_CHOKE" \/ RLt(Zero, e.maxp) THEN RAdd(o.stages[1].i.p, sts[1].drop) ELSE p.ps
      n == o.stages[1].speed
      choked == e.control = "DOWNSTREAM_CHOKE" /\ RLt(o.outlet.p, o.stages[N].o.p) /\ Fits(o.outlet.p, p.pd)
      \* a train that can not be controlled by one recirculation is reported at the mass rate it was tried with
      through == IF e.control = "COMMON_ASV" /\ (~Ok(o) \/ ~RClose(o.outlet.p, p.pd, "2/10000", Zero)) THEN RDbl(RDiv(o.stages[1].m, Arriving(sts[1], e.m, One, from).mass)) ELSE mass
      \* a flat curve: the pressure asked is just the one of this rate
      Border(r) == RClose(Outlet(Along(sts, e.m, RDbl(MassRate(e.m, r)), p.ps, Fastest(sts), Nothing)), p.pd, Band, Zero)
  IN Fails("rate reported", Fits(o.rate, sm)) \cup Fails("pressures reported", Fits(o.rps, p.ps) /\ Fits(o.rpd, p.pd))
     \cup Fails("validity", o.valid = (o.fail = "NO_FAILURE") /\ o.cvalid = o.valid)
     \cup Fails("power of the train", Fits(o.power, adj) /\ Fits(o.energy, adj))
     \cup Fails("power of the consumer", Fits(o.cpower, RDiv(adj, RSub(One, p.plf))) /\ o.cenergy = o.cpower)
     \cup IF idle THEN Fails("at rest", o.fail = "NO_FAILURE" /\ REq(o.power, Zero))
          ELSE Fails("speed within the range", RLe(Slowest(sts), n) /\ RLe(n, Fastest(sts)))
               \cup Fails("inlet of the train", Fits(o.inlet.p, p.ps) /\ Fits(o.inlet.t, sts[1].t))
               \cup Fails("outlet of the train", choked \/ Fits(o.outlet.p, o.stages[N].o.p))
               \cup FailureFails(p, o)
               \cup Fails("power limit", Ok(o) => (o.fail = "ABOVE_MAXIMUM_POWER") = (RLt(Zero, e.maxpower) /\ RLt(e.maxpower, power)))
               \cup Chain(sts, o.stages, e.m, through, from, n)
               \cup Fails("no less than asked", RLe(RMul(mass, "999999/1000000"), through))
               \cup (IF RLt(Zero, e.maxp) THEN {} ELSE Decided(e, sts, e.m, mass, p, o))
     \cup IF ~e.max \/ REq(e.reg, Zero) \/ ~p.cond \/ RLt(Zero, e.maxp) \/ e.control \notin {"DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE"} THEN {}
          ELSE Fails("highest rate: any rate the train takes is below", o.valid => REq(o.most, Zero) \/ RLe(sm, RMul(o.most, "1003/1000")) \/ Border(sm))
               \cup (IF o.most = "nan" \/ REq(o.most, Zero) THEN {} ELSE Fails("highest rate: the train takes it", p.below) \cup 
                     Fails("highest rate: it takes no more", ~p.above \/ Border(RMul(o.most, "101/100"))))
=============================================================================
