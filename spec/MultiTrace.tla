----------------------------- MODULE MultiTrace -----------------------------
(* Recorded compressor trains with several streams and pressures: one event per train, as in TrainRun, with [at, up, down]: the
   stage ahead of which an interstage pressure is held (counted from zero, zero: none) and the pressure controls of the parts
   before and after it; per period also pi, that pressure, and outs and ins per stage, the rates taken out and the gases coming in. *)
EXTENDS TrainRun, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Sm(e, p, r) == IF REq(e.reg, Zero) \/ ~p.cond THEN Zero ELSE RDiv(r, e.reg)
\* the stages with the streams of a period
Fitted(e, sts, p) ==
  TLCEval([k \in Dom(sts) |-> [sts[k] EXCEPT !.outs = Sm(e, p, p.outs[k]), !.ins = [j \in Dom(p.ins[k]) |-> [p.ins[k][j] EXCEPT !.sm = Sm(e, p, p.ins[k][j].sm)]]]])

\* --- two pressures: the train in two parts on one shaft ----------------------------------------------------------------------------------
RECURSIVE After(_, _, _)
After(sts, m, mass) == IF sts = <<>> THEN [m |-> m, mass |-> mass] ELSE LET f == Fed(Head(sts), m, mass) IN After(Tail(sts), f.m, f.mass)
\* what a part reports of itself: fails as its own stages and pressure say
PartSays(o, stages, outlet, pd) ==
  LET out == {k \in Dom(stages) : ~stages[k].valid} first == CHOOSE k \in out : \A j \in out : k <= j
  IN [stages |-> stages, outlet |-> [p |-> outlet],
      fail |-> IF out # {} THEN stages[first].flag ELSE IF Fits(outlet, pd) \/ Meets(outlet, pd) THEN "NO_FAILURE"
               ELSE IF RLt(pd, outlet) THEN "TARGET_DISCHARGE_PRESSURE_TOO_LOW" ELSE "TARGET_DISCHARGE_PRESSURE_TOO_HIGH"]
TwoFails(e, sts, p) ==
  LET o == p.o N == Len(sts) n == o.stages[1].speed
      lo == Slowest(sts) hi == Fastest(sts)
      mass1 == RDbl(MassRate(e.m, Sm(e, p, p.rate)))
      s1 == SubSeq(sts, 1, e.at) s2 == SubSeq(sts, e.at + 1, N)
      r1 == SubSeq(o.stages, 1, e.at) r2 == SubSeq(o.stages, e.at + 1, N)
      mid == After(s1, e.m, mass1)
      \* a choke after the first part is not reported itself: the next stage gets what it leaves
      out1 == IF e.up = "DOWNSTREAM_CHOKE" /\ RLt(p.pi, r1[e.at].o.p) THEN p.pi ELSE r1[e.at].o.p
      parts == << [sts |-> s1, m |-> e.m, mass |-> mass1, ps |-> p.ps, pd |-> p.pi, control |-> e.up, o |-> PartSays(o, r1, out1, p.pi)],
                  [sts |-> s2, m |-> mid.m, mass |-> mid.mass, ps |-> p.pi, pd |-> p.pd, control |-> e.down, o |-> PartSays(o, r2, o.outlet.p, p.pd)] >>
      from(a) == IF a.control = "UPSTREAM_CHOKE" THEN RAdd(a.o.stages[1].i.p, a.sts[1].drop) ELSE a.ps
      Run(s) == TLCEval([k \in 1..2 |-> Along(parts[k].sts, parts[k].m, parts[k].mass, parts[k].ps, s, Nothing)])
      top == Run(hi) here == Run(n) low == Run(lo)
      Cannot(k) == Over(Room(top[k]), One) \/ Below(Outlet(top[k]), parts[k].pd)
      Can(k) == Below(Room(top[k]), One) /\ Over(Outlet(top[k]), parts[k].pd)
      Tight(k) == RClose(Room(here[k]), One, "1/100", Zero) \/ ~Over(Outlet(here[k]), parts[k].pd)
      Held(k) == LET a == parts[k]
                 IN IF Over(Outlet(here[k]), a.pd) THEN Controlled([control |-> a.control, maxp |-> Zero], a.sts, a.m, a.mass, [ps |-> a.ps, pd |-> a.pd], a.o)
                    ELSE Fails("pressure met by speed", ~Below(Room(here[k]), One) \/ Delivers([stages |-> <<[o |-> [p |-> a.o.outlet.p]]>>], a.pd))
      out == {k \in 1..N : ~o.stages[k].valid} first == CHOOSE k \in out : \A j \in out : k <= j
      Away(a, b) == RClose(a, b, "999/1000000", Zero) Far(a, b) == ~RClose(a, b, "1001/1000000", Zero)
  IN UNION {Chain(parts[k].sts, parts[k].o.stages, parts[k].m, parts[k].mass, from(parts[k]), n) : k \in 1..2}
     \cup Fails("outlet of the train", Fits(o.outlet.p, o.stages[N].o.p) \/ (e.down = "DOWNSTREAM_CHOKE" /\ RLt(o.outlet.p, o.stages[N].o.p) /\ Fits(o.outlet.p, p.pd)))
     \cup Fails("failure told",
            IF out # {} THEN o.fail = o.stages[first].flag
            ELSE IF Far(o.outlet.p, p.pd) THEN RLt(RMul(p.ps, "1001/1000"), RAdd(o.stages[1].i.p, sts[1].drop))
                                               \/ o.fail = (IF RLt(p.pd, o.outlet.p) THEN "TARGET_DISCHARGE_PRESSURE_TOO_LOW" ELSE "TARGET_DISCHARGE_PRESSURE_TOO_HIGH")
            ELSE IF Away(o.outlet.p, p.pd) THEN
                   IF Far(out1, p.pi) THEN o.fail = (IF RLt(p.pi, out1) THEN "TARGET_INTERMEDIATE_PRESSURE_TOO_LOW" ELSE "TARGET_INTERMEDIATE_PRESSURE_TOO_HIGH")
                   ELSE Away(out1, p.pi) /\ RLe(RAdd(o.stages[1].i.p, sts[1].drop), RMul(p.ps, "1001/1000")) => Ok(o)
            ELSE TRUE)
     \cup IF Cannot(1) \/ Cannot(2) THEN Fails("more than the train gives", ~Ok(o) /\ SpeedIs(o, hi))
          ELSE IF Can(1) /\ Can(2)
          THEN \* as fast as both parts need, and no faster
               Fails("fast enough for both parts", \A k \in 1..2 : ~Over(Room(here[k]), One) /\ ~Below(Outlet(here[k]), parts[k].pd))
               \cup Fails("no faster than needed", SpeedIs(o, lo) \/ Tight(1) \/ Tight(2))
               \cup Held(1) \cup Held(2)
          ELSE {}

PeriodOf(e, sts0, p) ==
  LET sts == Fitted(e, sts0, p) o == p.o N == Len(sts)
      idle == REq(Sm(e, p, p.rate), Zero) /\ \A k \in 1..N : \A j \in Dom(sts[k].ins) : REq(sts[k].ins[j].sm, Zero)
      power == RSum([k \in 1..N |-> o.stages[k].power])
      adj == IF RLt(Zero, power) THEN RAdd(RMul(power, e.factor), e.const) ELSE power
  IN IF e.at = 0 THEN PeriodFails(e, sts, p)
     ELSE Fails("rate reported", Fits(o.rate, Sm(e, p, p.rate))) \cup Fails("pressures reported", Fits(o.rps, p.ps) /\ Fits(o.rpd, p.pd))
          \cup Fails("validity", o.valid = (o.fail = "NO_FAILURE") /\ o.cvalid = o.valid)
          \cup Fails("power of the train", Fits(o.power, adj) /\ Fits(o.energy, adj))
          \cup Fails("power of the consumer", Fits(o.cpower, RDiv(adj, RSub(One, p.plf))) /\ o.cenergy = o.cpower)
          \cup IF idle THEN Fails("at rest", o.fail = "NO_FAILURE" /\ REq(o.power, Zero))
               ELSE Fails("speed within the range", RLe(Slowest(sts), o.stages[1].speed) /\ RLe(o.stages[1].speed, Fastest(sts)))
                    \cup Fails("inlet of the train", Fits(o.inlet.p, p.ps) /\ Fits(o.inlet.t, sts[1].t))
                    \cup Fails("power limit", Ok(o) => (o.fail = "ABOVE_MAXIMUM_POWER") = (RLt(Zero, e.maxpower) /\ RLt(e.maxpower, power)))
                    \cup TwoFails(e, sts, p)
Verdict(e) == LET sts == StagesOf(e.stages) IN UNION {PeriodOf(e, sts, e.periods[k]) : k \in Dom(e.periods)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
