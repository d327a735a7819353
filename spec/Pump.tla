-------------------------------- MODULE Pump --------------------------------
(* Pumps described by charts.

   t = [speed, rate, head, eff] : the columns of the chart file (speed and eff may be empty); u = [head, eff] : factors of its
   units to J/kg and to a fraction.  A chart is a sequence of curves [r, h, e], slowest first, each in order of rate.

   A pump cannot run left of its minimum flow line (it recirculates) nor below its slowest curve and the line from there to the
   end of its fastest one (the rest is choked), and it has no capacity above its fastest curve and right of its highest rate.   *)
EXTENDS Num, FiniteSets

Dom(s) == DOMAIN s
RECURSIVE SortNums(_), SortRows(_, _)
SortNums(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : RLe(x, y) IN <<m>> \o SortNums(S \ {m})
SortRows(I, rate) == IF I = {} THEN <<>> ELSE LET i == CHOOSE i \in I : \A j \in I : RLe(rate[i], rate[j]) IN <<i>> \o SortRows(I \ {i}, rate)

Curve(t, u, I) == LET s == SortRows(I, t.rate)
                  IN [r |-> [k \in Dom(s) |-> t.rate[s[k]]],
                      h |-> [k \in Dom(s) |-> RMul(t.head[s[k]], u.head)],
                      e |-> [k \in Dom(s) |-> IF t.eff = <<>> THEN One ELSE RMul(t.eff[s[k]], u.eff)]]
ChartOf(t, u) == IF t.speed = <<>> THEN <<Curve(t, u, Dom(t.rate))>>
                 ELSE LET S == SortNums(Range(t.speed)) IN [k \in Dom(S) |-> Curve(t, u, {i \in Dom(t.rate) : t.speed[i] = S[k]})]

\* piecewise linear through (xs[i], ys[i]), xs increasing, constant beyond the ends
Line(xs, ys, x) ==
  IF RLe(x, xs[1]) THEN ys[1]
  ELSE IF RLe(xs[Len(xs)], x) THEN ys[Len(ys)]
  ELSE LET k == CHOOSE k \in 2..Len(xs) : RLe(xs[k - 1], x) /\ RLt(x, xs[k])
       IN RAdd(ys[k - 1], RDiv(RMul(RSub(x, xs[k - 1]), RSub(ys[k], ys[k - 1])), RSub(xs[k], xs[k - 1])))
Last(s) == s[Len(s)]
Slow(ch) == ch[1]
Fast(ch) == ch[Len(ch)]

MinFlow(ch, h) == LET a == Slow(ch) b == Fast(ch)
                  IN IF REq(a.h[1], b.h[1]) THEN a.r[1] ELSE Line(<<a.h[1], b.h[1]>>, <<a.r[1], b.r[1]>>, h)
MinHead(ch, r) == LET a == Slow(ch) b == Fast(ch)
                  IN IF RLt(Last(a.r), Last(b.r)) THEN Line(Append(a.r, Last(b.r)), Append(a.h, Last(b.h)), r) ELSE Line(a.r, a.h, r)
MaxHead(ch, r) == Line(Fast(ch).r, Fast(ch).h, r)
RECURSIVE MaxRateOf(_)
MaxRateOf(ch) == IF Len(ch) = 1 THEN Last(ch[1].r) ELSE RMax(Last(Head(ch).r), MaxRateOf(Tail(ch)))
\* the highest rate the pump gives a head
Reverse(s) == [i \in Dom(s) |-> s[Len(s) + 1 - i]]
MaxRateAt(ch, h) == Line(Reverse(Fast(ch).h), Reverse(Fast(ch).r), h)

\* --- efficiency: of the nearest curves above and below the point, weighted by how near they are --------------------------------
AllOf(ch, Op(_)) == LET RECURSIVE f(_)
                        f(k) == IF k = 0 THEN <<>> ELSE f(k - 1) \o Op(ch[k])
                    IN f(Len(ch))
Variance(s) == LET m == RDiv(RSum(s), Len(s)) IN RDiv(RSum([i \in Dom(s) |-> RMul(RSub(s[i], m), RSub(s[i], m))]), Len(s))
\* squares of the units rates and heads are measured in
Scale(ch) == LET R(c) == c.r H(c) == c.h vr == Variance(AllOf(ch, R)) vh == Variance(AllOf(ch, H))
             IN IF REq(vr, Zero) \/ REq(vh, Zero) THEN <<One, One>> ELSE <<vr, vh>>

Sq(x) == RMul(x, x)
\* the closest point of segment k of curve c: [d2, up, dn, e] the squared distance, may it count as above or below, its efficiency
Closest(c, k, sc, r, h) ==
  LET dx == RSub(c.r[k + 1], c.r[k]) dy == RSub(c.h[k + 1], c.h[k])
      n == RAdd(RDiv(Sq(dx), sc[1]), RDiv(Sq(dy), sc[2]))
      m == RAdd(RDiv(RMul(RSub(r, c.r[k]), dx), sc[1]), RDiv(RMul(RSub(h, c.h[k]), dy), sc[2]))
      s == RMax(Zero, RMin(One, RDiv(m, n)))
      x == RAdd(c.r[k], RMul(s, dx)) y == RAdd(c.h[k], RMul(s, dy))
      gap == RDiv(Sq(RSub(y, h)), sc[2])
  IN [d2 |-> RAdd(RDiv(Sq(RSub(x, r)), sc[1]), gap),
      up |-> RLe(h, y) \/ RLe(gap, "1/100000000000000000000"),
      dn |-> RLt(y, h) \/ RLe(gap, "1/100000000000000000000"),
      e |-> RAdd(c.e[k], RMul(s, RSub(c.e[k + 1], c.e[k])))]
Nearest(c, sc, r, h) ==
  LET A == {Closest(c, k, sc, r, h) : k \in 1..(Len(c.r) - 1)}
      m == CHOOSE a \in A : \A b \in A : RLe(a.d2, b.d2)
      B == {a \in A : RLe(a.d2, RAdd(RMul(m.d2, "1000000001/1000000000"), "1/100000000000000000000"))}
  IN {[d2 |-> a.d2, side |-> "above", e |-> a.e] : a \in {x \in B : x.up}} \cup {[d2 |-> a.d2, side |-> "below", e |-> a.e] : a \in {x \in B : x.dn}}
Blend(f) ==
  LET A == {k \in Dom(f) : f[k].side = "above"} B == {k \in Dom(f) : f[k].side = "below"}
      a == CHOOSE k \in A : \A j \in A : RLe(f[k].d2, f[j].d2)
      b == CHOOSE k \in B : \A j \in B : RLe(f[k].d2, f[j].d2)
  IN IF A = {} THEN f[b].e ELSE IF B = {} THEN f[a].e
     ELSE LET da == RSqrt(f[a].d2) db == RSqrt(f[b].d2)
              w == IF REq(da, Zero) THEN Zero ELSE RDiv(da, RAdd(da, db))
          IN RAdd(RMul(w, f[b].e), RMul(RSub(One, w), f[a].e))
\* more than one only where the point is on a border between cases that doubles do not tell apart
RECURSIVE Picks(_)
Picks(C) == IF C = <<>> THEN {<<>>} ELSE {<<x>> \o p : x \in Head(C), p \in Picks(Tail(C))}
Efficiencies(ch, r, h) ==
  LET sc == Scale(ch) C == [k \in Dom(ch) |-> Nearest(ch[k], sc, r, h)] IN {Blend(f) : f \in Picks(C)}

\* --- the operating point -------------------------------------------------------------------------------------------------------
HeadOf(ps, pd, rho) == RDiv(RMul(RSub(pd, ps), "100000"), rho)                       \* J/kg
\* margin in J/kg, rate in m3/h; exact: are the numbers such that doubles tell the borders apart
\* {[r, h, ok]} : where the pump runs, and whether it has the capacity
Runs(ch, margin, rate, head, exactly) ==
  LET exact == exactly /\ RLt(MinFlow(ch, head), rate)     \* (the minimum flow is not told apart from slightly more)
      r == RMax(rate, MinFlow(ch, head))
      h == RMax(head, MinHead(ch, r))
      mx == MaxHead(ch, r)
      Low == IF ~exact /\ Near(h, mx) THEN {TRUE, FALSE} ELSE {RLe(h, mx)}
      In == IF ~exact /\ Near(h, RAdd(mx, margin)) THEN {TRUE, FALSE} ELSE {RLe(h, RAdd(mx, margin))}
      Rt == IF ~exact /\ Near(r, MaxRateOf(ch)) THEN {TRUE, FALSE} ELSE {RLe(r, MaxRateOf(ch))}
  IN {[r |-> r, h |-> IF ~low /\ in /\ ~REq(margin, Zero) THEN mx ELSE h, ok |-> rt /\ (low \/ (in /\ ~REq(margin, Zero)))] : low \in Low, in \in In, rt \in Rt}
PowerAt(rho, r, h, eff) == RDiv(RMul(rho, RMul(h, r)), RMul("3600000000", eff))    \* MW

\* Are [power, valid] what the pump gives at a rate per day?
PumpOk(ch, margin, rate, ps, pd, rho, exact, power, valid) ==
  IF RLe(rate, Zero) THEN valid /\ Near(power, Zero)
  ELSE \E o \in Runs(ch, margin, RDiv(rate, "24"), HeadOf(ps, pd, rho), exact) :
          o.ok = valid /\ (valid => \E f \in Efficiencies(ch, o.r, o.h) : Near(power, PowerAt(rho, o.r, o.h, f)))
=============================================================================
