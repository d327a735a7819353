------------------------------- MODULE Simple -------------------------------
(* Simplified compressor trains: every stage lifts the gas by the same pressure ratio at its own speed, on a generic chart scaled
   from a design point, given or found from the input so that it covers every operating point.                                  *)
EXTENDS Train

\* the generic chart of design rate 1 and design head 1: 75 % and 105 % speed
Unified ==
  << [n |-> "75",
      r |-> <<"498902665/1000000000", "529285159/1000000000", "553058057/1000000000", "612499498/1000000000", "667962103/1000000000", "70889013/100000000", "730015921/1000000000">>,
      h |-> <<"558852888/1000000000", "546703033/1000000000", "5325282/10000000", "506203512/1000000000", "46570399/100000000", "427229447/1000000000", "409004665/1000000000">>],
     [n |-> "105",
      r |-> <<"878913798/1000000000", "929112832/1000000000", "97269818/100000000", "1038726745/1000000000", "1099463139/1000000000", "1158871891/1000000000", "1231463064/1000000000", "1278951663/1000000000", "1323778851/1000000000">>,
      h |-> <<"1289869247/1000000000", "1271644457/1000000000", "1247344747/1000000000", "1200770298/1000000000", "1148120922/1000000000", "1089396618/1000000000", "99827269/100000000", "913223698/1000000000", "809949924/1000000000">>] >>
Generic(dr, dh, eff) ==
  TLCEval([k \in 1..2 |-> [n |-> Unified[k].n, r |-> [i \in Dom(Unified[k].r) |-> RDbl(RMul(dr, Unified[k].r[i]))],
                   h |-> [i \in Dom(Unified[k].h) |-> RDbl(RMul(dh, Unified[k].h[i]))], e |-> [i \in Dom(Unified[k].r) |-> eff]]])

\* the least number of stages none of which lifts more than the ratio allowed
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN One ELSE RMul(x, Times(x, n - 1))
Enough(n, allowed, ratios) == \A k \in Dom(ratios) : RLe(ratios[k], Times(allowed, n))
PerStage(ratio, n) == RDbl(RPow(ratio, RDiv(One, n)))

\* the gas constant (CODATA 2006), and the polytropic head from p1 to p2 (Campbell)
SimpleR == "8314472/1000000"
CampbellBy(m, t, p1, p2, eff, z, k) ==
  LET e == RDiv(RSub(k, One), RMul(k, eff))
  IN RDbl(RDiv(RMul(RDiv(RMul(RMul(z, SimpleR), t), MolarMass(m.x)), RSub(RPow(RDiv(p2, p1), e), One)), e))
Campbell(m, t, p1, p2, eff) == CampbellBy(m, t, p1, p2, eff, Half(ZOf(m, p1), ZOf(m, p2)), Half(KappaOf(m, t, p1), KappaOf(m, t, p2)))

\* one stage on chart ch: what it has to run at, and whether it can
Lift(ch, m, mass, t, p1, p2) ==
  LET rho == RDbl(DensityOf(m, t, p1)) q == RDbl(RDiv(mass, rho)) eff == ch[1].e[1]
      h == Campbell(m, t, p1, p2, eff) c == CapacityOf(ch, q, h, TRUE)
  IN TLCEval([rho |-> rho, q |-> q, eff |-> eff, h |-> h, c |-> c, recirc |-> RLt(q, c.lo), choked |-> RLt(h, c.low), rex |-> RLt(c.hi, c.q), hex |-> RLt(c.top, c.g)])
\* clearly off all borders of the chart
Clear(s) == LET off(a, b) == ~RClose(a, b, "1/100000", Zero) IN off(s.q, s.c.lo) /\ off(s.h, s.c.low) /\ off(s.c.hi, s.c.q) /\ off(s.c.top, s.c.g)
FlagOf(recirc, choked, rex, hex) ==
  IF choked /\ recirc THEN "BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE"
  ELSE IF choked /\ rex THEN "BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE"
  ELSE IF recirc THEN "BELOW_MINIMUM_FLOW_RATE" ELSE IF rex THEN "ABOVE_MAXIMUM_FLOW_RATE"
  ELSE IF choked THEN "BELOW_MINIMUM_SPEED" ELSE IF hex THEN "ABOVE_MAXIMUM_SPEED" ELSE "INTERNAL_POINT"

\* the highest rate (Sm3/day) of a stage at head h
RateAt(ch, m, t, p1, h) == RDiv(RMul(RMul(WallAt(ch, h, FALSE), DensityOf(m, t, p1)), "24"), StandardDensity(m))
=============================================================================
