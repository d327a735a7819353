------------------------------- MODULE Chart -------------------------------
(* Compressor charts: what a compressor does at a speed and a rate, and what it can do.

   A chart is a sequence of curves [n, r, h, e] : the speed, and per point the rate (m3/h), the polytropic head (J/kg) and the
   efficiency, in order of rate; slowest first.                                                                                *)
EXTENDS Pump

\* --- the chart of the curves given in any order, kept a margin away from surge -------------------------------------------------------
Sorted(c) == LET s == SortRows(Dom(c.r), c.r) Pick(f) == TLCEval([k \in Dom(s) |-> f[s[k]]]) IN [n |-> c.n, r |-> Pick(c.r), h |-> Pick(c.h), e |-> Pick(c.e)]
BySpeed(cs) == LET s == SortRows(Dom(cs), [k \in Dom(cs) |-> cs[k].n]) IN [k \in Dom(s) |-> Sorted(cs[s[k]])]
Kept(c, m) ==
  IF REq(m, Zero) THEN c
  ELSE LET x == RAdd(c.r[1], RMul(m, RSub(Last(c.r), c.r[1])))
           K == SortInts({k \in Dom(c.r) : RLt(x, c.r[k])})
           Pick(f) == TLCEval(<<Line(c.r, f, x)>> \o [k \in Dom(K) |-> f[K[k]]])
       IN [n |-> c.n, r |-> Pick(c.r), h |-> Pick(c.h), e |-> Pick(c.e)]
CompressorChart(cs, m) == TLCEval(LET s == BySpeed(cs) IN [k \in Dom(s) |-> Kept(s[k], m)])

\* --- its range ---------------------------------------------------------------------------------------------------------------------
Speeds(ch) == [k \in Dom(ch) |-> ch[k].n]
OfSpeed(ch, v, n) == IF Len(ch) = 1 THEN v[1] ELSE Line(Speeds(ch), v, n)
FirstOf(ch, f(_)) == [k \in Dom(ch) |-> f(ch[k])[1]]
LastOf(ch, f(_)) == [k \in Dom(ch) |-> Last(f(ch[k]))]
Rr(c) == c.r
Hh(c) == c.h
Ee(c) == c.e
MinSpeed(ch) == ch[1].n
MaxSpeed(ch) == ch[Len(ch)].n
LeastAt(ch, n) == OfSpeed(ch, FirstOf(ch, Rr), n)       \* the lowest and the highest rate at a speed
MostAt(ch, n) == OfSpeed(ch, LastOf(ch, Rr), n)

\* --- head and efficiency at a speed n and a rate r of the range -----------------------------------------------------------------------
OnCurve(c, r) == <<Line(c.r, c.h, r), Line(c.r, c.e, r)>>
Share(c, s) == RAdd(c.r[1], RMul(s, RSub(Last(c.r), c.r[1])))
Inside(ch, n, r) ==
  IF \E k \in Dom(ch) : REq(ch[k].n, n) THEN OnCurve(ch[CHOOSE k \in Dom(ch) : REq(ch[k].n, n)], r)
  ELSE LET k == CHOOSE k \in 1..(Len(ch) - 1) : RLt(ch[k].n, n) /\ RLt(n, ch[k + 1].n)
           w == RDiv(RSub(n, ch[k].n), RSub(ch[k + 1].n, ch[k].n))
           lo == LeastAt(ch, n) hi == MostAt(ch, n)
           s == RDiv(RSub(r, lo), RSub(hi, lo))
           a == OnCurve(ch[k], Share(ch[k], s)) b == OnCurve(ch[k + 1], Share(ch[k + 1], s))
           Mix(x, y) == RAdd(RMul(RSub(One, w), x), RMul(w, y))
       IN <<Mix(a[1], b[1]), Mix(a[2], b[2])>>

NoFlow == "1/100000"
\* The compressor at speed n, with the rate r0 to compress and the rate r through it (recirculation included); up: may a speed
\* below the range be raised, asv: may the rate be raised to the lowest.  [head, eff, flag, valid]
PointOf(ch, n, r0, r, up, asv) ==
  LET slow == RLt(n, MinSpeed(ch))
      out == (slow /\ ~up) \/ RLt(MaxSpeed(ch), n)
      s == IF slow /\ up THEN MinSpeed(ch) ELSE n
      lo == LeastAt(ch, s) hi == MostAt(ch, s)
      short == RLt(r, lo) over == RLt(NoFlow, r0) /\ RLt(hi, r0)
      Of(a, b) == IF slow THEN a ELSE b
      flag == IF RLe(r0, NoFlow) THEN "NO_FLOW_RATE"
              ELSE IF RLt(r0, lo) THEN Of("BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE", "BELOW_MINIMUM_FLOW_RATE")
              ELSE IF RLt(hi, r0) THEN Of("BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE", "ABOVE_MAXIMUM_FLOW_RATE")
              ELSE Of("BELOW_MINIMUM_SPEED", "INTERNAL_POINT")
      valid == ~(short /\ ~asv) /\ ~over
      he == IF valid THEN Inside(ch, s, RMax(r, lo))
            ELSE IF over THEN <<OfSpeed(ch, LastOf(ch, Hh), s), OfSpeed(ch, LastOf(ch, Ee), s)>>
            ELSE <<OfSpeed(ch, FirstOf(ch, Hh), s), OfSpeed(ch, FirstOf(ch, Ee), s)>>
  IN IF out THEN [head |-> "nan", eff |-> "nan", flag |-> IF slow THEN "BELOW_MINIMUM_SPEED" ELSE "ABOVE_MAXIMUM_SPEED", valid |-> FALSE]
     ELSE [head |-> he[1], eff |-> he[2], flag |-> flag, valid |-> valid]

\* --- capacity at a rate and a head: what the compressor has to run at, and whether it can -----------------------------------------------
\* choke: heads below the range are choked away; otherwise the least flow follows the slowest curve
SurgeAt(ch, h, choke) ==
  LET a == Slow(ch) b == Fast(ch)
  IN IF choke THEN MinFlow(ch, h)
     ELSE IF Len(ch) = 1 THEN Line(Reverse(a.h), Reverse(a.r), h)
     ELSE Line(Append(Reverse(a.h), b.h[1]), Append(Reverse(a.r), b.r[1]), h)
WallAt(ch, h, choke) ==
  LET a == Slow(ch) b == Fast(ch)
  IN IF choke \/ Len(ch) = 1 THEN MaxRateAt(ch, h)
     ELSE Line(<<Last(a.h)>> \o Reverse(b.h), <<Last(a.r)>> \o Reverse(b.r), h)
CapacityOf(ch, r, h, choke) ==
  LET lo == SurgeAt(ch, h, choke) q == RMax(r, lo) low == MinHead(ch, q) g == IF choke THEN RMax(h, low) ELSE h
      hi == WallAt(ch, h, choke) top == MaxHead(ch, r)
  IN [lo |-> lo, q |-> q, low |-> low, g |-> g, hi |-> hi, top |-> top]
=============================================================================
