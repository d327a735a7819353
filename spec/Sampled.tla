------------------------------ MODULE Sampled ------------------------------
(* Compressors given by sampled data: tables of rate, suction and discharge pressure against power or fuel.

   t = [r, s, d, e, p] : columns (empty when not in the table); e is the energy usage, p the power of a fuel table
   a = [c, r, s, d]    : the energy usage of the table is c + r*rate + s*ps + d*pd (or <<>> when it has no such form)

   The operating area is the convex hull of the sampled points.  A point outside it is moved there where the machine can do so
   itself: the rate is raised by recirculation, the suction pressure lowered and the discharge pressure raised by choking.     *)
EXTENDS Num, FiniteSets

NoVal == "nan"
Dom(s) == DOMAIN s
Clamp(x, xs) == RMax(MinOf(xs), RMin(x, MaxOf(xs)))
Within(x, xs) == RLe(MinOf(xs), x) /\ RLe(x, MaxOf(xs))
Constant(xs) == \A i \in Dom(xs) : xs[i] = xs[1]
Varies(xs) == xs # <<>> /\ ~Constant(xs)

RECURSIVE MinSet(_), MaxSet(_)
MinSet(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN x ELSE RMin(x, MinSet(S \ {x}))
MaxSet(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN x ELSE RMax(x, MaxSet(S \ {x}))
SetSeq(xs) == Range(xs)

\* --- one variable -------------------------------------------------------------------------------------------------------
\* piecewise linear interpolation through the points (xs[i], ys[i]) at x within their range
Interp(xs, ys, x) ==
  LET lo == {i \in Dom(xs) : RLe(xs[i], x)} hi == {i \in Dom(xs) : RLe(x, xs[i])}
      i == CHOOSE k \in lo : \A j \in lo : RLe(xs[j], xs[k])
      j == CHOOSE k \in hi : \A m \in hi : RLe(xs[k], xs[m])
  IN IF xs[i] = xs[j] THEN ys[i]
     ELSE RAdd(ys[i], RDiv(RMul(RSub(x, xs[i]), RSub(ys[j], ys[i])), RSub(xs[j], xs[i])))

\* --- two variables: the convex hull of the points (xs[i], ys[i]) ----------------------------------------------------------
Chord(xs, ys, i, j, x) ==
  IF xs[i] = xs[j] THEN {ys[i], ys[j]}
  ELSE {RAdd(ys[i], RDiv(RMul(RSub(x, xs[i]), RSub(ys[j], ys[i])), RSub(xs[j], xs[i])))}
Heights(xs, ys, x) == UNION {Chord(xs, ys, p[1], p[2], x) : p \in {q \in Dom(xs) \X Dom(xs) : RLe(xs[q[1]], x) /\ RLe(x, xs[q[2]])}}
LowAt(xs, ys, x) == MinSet(Heights(xs, ys, x))    \* the least y of the hull above x (x within the range of xs)
HighAt(xs, ys, x) == MaxSet(Heights(xs, ys, x))
In2(xs, ys, x, y) == Within(x, xs) /\ RLe(LowAt(xs, ys, x), y) /\ RLe(y, HighAt(xs, ys, x))

\* --- three variables: the heights z of the hull of (xs, ys, zs) above (x, y) ----------------------------------------------
Det(ax, ay, bx, by) == RSub(RMul(ax, by), RMul(ay, bx))
TriHeights(xs, ys, zs, T, x, y) ==
  LET i == T[1] j == T[2] k == T[3]
      D == Det(RSub(xs[j], xs[i]), RSub(ys[j], ys[i]), RSub(xs[k], xs[i]), RSub(ys[k], ys[i]))
      u == RDiv(Det(RSub(x, xs[i]), RSub(y, ys[i]), RSub(xs[k], xs[i]), RSub(ys[k], ys[i])), D)
      v == RDiv(Det(RSub(xs[j], xs[i]), RSub(ys[j], ys[i]), RSub(x, xs[i]), RSub(y, ys[i])), D)
  IN IF REq(D, Zero) \/ RLt(u, Zero) \/ RLt(v, Zero) \/ RLt(One, RAdd(u, v)) THEN {}
     ELSE {RAdd(zs[i], RAdd(RMul(u, RSub(zs[j], zs[i])), RMul(v, RSub(zs[k], zs[i]))))}
Triples(n) == {T \in (1..n) \X (1..n) \X (1..n) : T[1] < T[2] /\ T[2] < T[3]}
Heights3(xs, ys, zs, x, y) == UNION {TriHeights(xs, ys, zs, T, x, y) : T \in Triples(Len(xs))}

\* --- the energy usage at a point ------------------------------------------------------------------------------------------
Affine(a, r, s, d) == RAdd(a.c, RAdd(RMul(a.r, r), RAdd(RMul(a.s, s), RMul(a.d, d))))

Eval1(t, r, s, d) ==
  IF Varies(t.r) THEN (IF RLt(MaxOf(t.r), r) THEN NoVal ELSE Interp(t.r, t.e, RMax(r, MinOf(t.r))))
  ELSE IF Varies(t.d) THEN (IF RLt(MaxOf(t.d), d) THEN NoVal ELSE Interp(t.d, t.e, RMax(d, MinOf(t.d))))
  ELSE IF RLt(s, MinOf(t.s)) THEN NoVal ELSE Interp(t.s, t.e, RMin(s, MaxOf(t.s)))

\* the point of the hull the machine runs in, <<>> when there is none
Point2(t, r, s, d) ==
  IF ~Varies(t.s) THEN LET r1 == RMax(r, LowAt(t.d, t.r, Clamp(d, t.d)))
                           d1 == RMax(d, LowAt(t.r, t.d, Clamp(r1, t.r)))
                       IN IF In2(t.r, t.d, r1, d1) THEN <<r1, s, d1>> ELSE <<>>
  ELSE IF ~Varies(t.d) THEN LET r1 == RMax(r, LowAt(t.s, t.r, Clamp(s, t.s)))
                                s1 == RMin(s, HighAt(t.r, t.s, Clamp(r1, t.r)))
                            IN IF In2(t.r, t.s, r1, s1) THEN <<r1, s1, d>> ELSE <<>>
  ELSE LET d1 == RMax(d, LowAt(t.s, t.d, Clamp(s, t.s)))
           s1 == RMin(s, HighAt(t.d, t.s, Clamp(d1, t.d)))
       IN IF In2(t.s, t.d, s1, d1) THEN <<r, s1, d1>> ELSE <<>>

\* Is the easiest point of all sampled?  Then the sides towards easier points are flat.
Flat(t) == \E i \in Dom(t.e) : REq(t.r[i], MinOf(t.r)) /\ REq(t.s[i], MaxOf(t.s)) /\ REq(t.d[i], MinOf(t.d))

\* <<the point, the furthest point of the hull behind it>>: on a bent side of the operating area the energy usage may be read
\* off any chord between the sampled points there, on a flat one it is exact
Point3(t, r, s, d) ==
  LET H0 == Heights3(t.s, t.d, t.r, s, d)
      \* raise the rate
      da == RMax(d, LowAt(t.s, t.d, Clamp(s, t.s))) sa == RMin(s, HighAt(t.d, t.s, Clamp(da, t.d)))
      HA == Heights3(t.s, t.d, t.r, sa, da)
      \* raise the discharge pressure
      rb == RMax(r, LowAt(t.s, t.r, Clamp(s, t.s))) sb == RMin(s, HighAt(t.r, t.s, Clamp(rb, t.r)))
      HB == Heights3(t.r, t.s, t.d, rb, sb)
      \* lower the suction pressure
      rc == RMax(r, LowAt(t.d, t.r, Clamp(d, t.d))) dc == RMax(d, LowAt(t.r, t.d, Clamp(rc, t.r)))
      HC == Heights3(t.r, t.d, t.s, rc, dc)
  IN IF H0 # {} /\ RLe(MinSet(H0), r) /\ RLe(r, MaxSet(H0)) THEN <<<<r, s, d>>, <<r, s, d>>>>
     ELSE IF HA # {} /\ RLe(r, MinSet(HA))
          THEN <<<<MinSet(HA), sa, da>>, <<IF Flat(t) THEN MinSet(HA) ELSE MaxSet(HA), sa, da>>>>
     ELSE IF HB # {} /\ RLe(d, MinSet(HB))
          THEN <<<<rb, sb, MinSet(HB)>>, <<rb, sb, IF Flat(t) THEN MinSet(HB) ELSE MaxSet(HB)>>>>
     ELSE IF HC # {} /\ RGe(s, MaxSet(HC))
          THEN <<<<rc, MaxSet(HC), dc>>, <<rc, IF Flat(t) THEN MaxSet(HC) ELSE MinSet(HC), dc>>>>
     ELSE <<>>

Dims(t) == Cardinality({c \in {"r", "s", "d"} : Varies(t[c])})

\* is the operating point possible as far as the variables that never change in the table are concerned
Fixed(t, r, s, d) ==
  /\ (t.r # <<>> /\ Constant(t.r)) => RLe(r, t.r[1])
  /\ (t.s # <<>> /\ Constant(t.s)) => RGe(s, t.s[1])
  /\ (t.d # <<>> /\ Constant(t.d)) => RLe(d, t.d[1])

\* the rows whose varying variables are the point
Rows(t, r, s, d) == {i \in Dom(t.e) : (Varies(t.r) => REq(t.r[i], r)) /\ (Varies(t.s) => REq(t.s[i], s)) /\ (Varies(t.d) => REq(t.d[i], d))}

\* Is got the energy usage at (r, s, d)?  (r a stream-day rate.)
EnergyAt(t, a, r, s, d, got) ==
  IF RLe(r, Zero) THEN Near(got, Zero)
  ELSE IF ~Fixed(t, r, s, d) THEN RIsNan(got)
  ELSE IF Dims(t) = 1 THEN LET v == Eval1(t, r, s, d) IN IF v = NoVal THEN RIsNan(got) ELSE Near(got, v)
  ELSE LET p == IF Dims(t) = 2 THEN Point2(t, r, s, d) ELSE Point3(t, r, s, d)
       IN IF p = <<>> THEN RIsNan(got)
          ELSE IF a # <<>> THEN IF Dims(t) = 2 THEN Near(got, Affine(a[1], p[1], p[2], p[3]))
                                ELSE LET u == Affine(a[1], p[1][1], p[1][2], p[1][3]) v == Affine(a[1], p[2][1], p[2][2], p[2][3])
                                     IN Near(got, u) \/ Near(got, v) \/ (RLe(RMin(u, v), got) /\ RLe(got, RMax(u, v)))
          ELSE LET I == IF Dims(t) = 2 THEN Rows(t, p[1], p[2], p[3]) ELSE IF REq(p[1][1], r) /\ REq(p[1][2], s) /\ REq(p[1][3], d) THEN Rows(t, r, s, d) ELSE {}
               IN IF I # {} THEN \E i \in I : Near(got, t.e[i])
                  ELSE RLe(RSub(MinOf(t.e), Abs), got) /\ RLe(got, RAdd(MaxOf(t.e), Abs))

\* Doubles do not tell points apart that are closer to the border of the operating area than this; and with three variables the
\* program takes rates this close to the lowest and the highest to be those.
Up(x) == RMul(x, "1000000001/1000000000")
Down(x) == RMul(x, "999999999/1000000000")
Slack(t) == IF Dims(t) = 3 THEN RMul(RSub(MaxOf(t.r), MinOf(t.r)), "101/1000000") ELSE Zero
UpR(t, r) == RAdd(Up(r), Slack(t))
DownR(t, r) == RMax(RSub(Down(r), Slack(t)), RMul(r, "1/1000"))
AtBorder(t, a, r, s, d, got) ==
  /\ Dims(t) = 3 /\ ~RIsNan(got) /\ RLt(Zero, r) /\ Fixed(t, r, s, d)
  /\ LET p == Point3(t, DownR(t, r), Up(s), Down(d))
     IN /\ p # <<>>
        /\ RLt(DownR(t, r), p[1][1]) \/ Point3(t, UpR(t, r), s, d) = <<>>
        /\ LET lo == IF a = <<>> THEN MinOf(t.e) ELSE Affine(a[1], p[1][1], p[1][2], p[1][3])
               hi == IF a = <<>> THEN MaxOf(t.e) ELSE RAdd(lo, RMul("3", RMul(a[1].r, Slack(t))))
           IN RLe(RMul(lo, "999999999/1000000000"), got) /\ RLe(got, RMul(hi, "1000000001/1000000000"))
EnergyOk(t, a, r, s, d, got) == EnergyAt(t, a, r, s, d, got)
                                \/ (RIsNan(got) /\ EnergyAt(t, a, UpR(t, r), Down(s), Up(d), got))
                                \/ (~RIsNan(got) /\ EnergyAt(t, a, Down(r), Up(s), Down(d), got))
                                \/ AtBorder(t, a, r, s, d, got)

\* the power of a machine whose table gives fuel: read off the table's own fuel and power
PowerOfFuel(t, fuel) ==
  IF RIsNan(fuel) THEN NoVal
  ELSE IF RLt(fuel, MinOf(t.e)) THEN Zero
  ELSE IF RLt(MaxOf(t.e), fuel) THEN NoVal
  ELSE Interp(t.e, t.p, fuel)

\* --- turbines ---------------------------------------------------------------------------------------------------------------
\* g = [loads, effs, lhv, c, f]
Shaft(g, load) == IF RLt(Zero, load) THEN RDiv(RAdd(load, g.c), g.f) ELSE load
Efficiency(g, x) == IF RLt(x, MinOf(g.loads)) THEN Zero
                    ELSE IF RLt(MaxOf(g.loads), x) THEN g.effs[CHOOSE i \in Dom(g.loads) : g.loads[i] = MaxOf(g.loads)]
                    ELSE Interp(g.loads, g.effs, x)
TurbineFuel(g, load) ==
  IF RIsNan(load) THEN NoVal
  ELSE LET x == Shaft(g, load) e == Efficiency(g, x)
       IN IF REq(e, Zero) THEN Zero ELSE RDiv(RDiv(RMul(x, "86400"), g.lhv), e)
TurbineValid(g, load) == ~RLt(MaxOf(g.loads), load)

\* the power of the compressor's shaft after the adjustment of a compressor with turbine, w = [c, f]
Adjusted(w, p) == IF RLt(Zero, p) THEN RAdd(RMul(p, w.f), w.c) ELSE p
=============================================================================
