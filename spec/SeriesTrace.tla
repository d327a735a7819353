---------------------------- MODULE SeriesTrace ----------------------------
(* Recorded operations on time series.  An event has op, the operands a, b (series), arguments and the result: res = "ok" with the
   series r, or "refused".                                                                                           *)
EXTENDS Series, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Fails(name, ok) == IF ok THEN {} ELSE {name}
SamePeriods(r, a) == r.s = a.s /\ r.e = a.e
NearTo(x, y, tol) == RClose(x, y, "1/1000000000", tol)
Eq(x, y) == x = y \/ Near(x, y)
EqSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Eq(x[i], y[i])
EqOf(k, x, y) == IF k \in {"str", "bool"} THEN x = y ELSE Eq(x, y)
EqSeqOf(k, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : EqOf(k, x[i], y[i])
Same(r, a) == r.k = a.k /\ r.unit = a.unit /\ (a.k = "rate" => r.rt = a.rt)
Part(a, I) == [v |-> [i \in DOMAIN I |-> a.v[I[i]]], s |-> [i \in DOMAIN I |-> a.s[I[i]]], e |-> [i \in DOMAIN I |-> a.e[I[i]]],
               reg |-> IF a.k = "rate" THEN [i \in DOMAIN I |-> a.reg[I[i]]] ELSE <<>>]
IsPart(r, a, I) == LET p == Part(a, I) IN Same(r, a) /\ EqSeqOf(a.k, r.v, p.v) /\ r.s = p.s /\ r.e = p.e /\ (a.k = "rate" => EqSeq(r.reg, p.reg))
Joined(r, a, b) == Same(r, a) /\ EqSeqOf(a.k, r.v, a.v \o b.v) /\ r.s = a.s \o b.s /\ r.e = a.e \o b.e /\ (a.k = "rate" => EqSeq(r.reg, a.reg \o b.reg))

Add(e) ==
  LET a == e.a b == e.b r == e.r cs == Sum0(CalOf(a), CalOf(b)) ss == Sum0(StreamOf(a), StreamOf(b))
  IN IF a.unit # b.unit \/ a.rt # b.rt THEN Fails("rates of different unit or type are not added", e.res = "refused")
     ELSE Fails("rates of one unit and type are added", e.res = "ok")
          \cup IF e.res # "ok" THEN {} ELSE
             Fails("the sum keeps periods, unit and type", SamePeriods(r, a) /\ Same(r, a))
             \cup Fails("the values of a sum are the sums of the values", EqSeq(r.v, Sum0(a.v, b.v)))
             \cup Fails("the calendar-day rate of a sum is the sum of the calendar-day rates",
                    \A i \in 1..N(r) : r.reg[i] = "nan" \/ RLe(RAbs(ss[i]), "1/1000000") \/ (RFinite(r.reg[i]) /\ NearTo(CalOf(r)[i], cs[i], "1/1000000")))
             \cup Fails("the regularity of a sum is known where there is a sum", \A i \in 1..N(r) : r.reg[i] = "nan" => REq(ss[i], Zero))
             \cup Fails("equal regularities are kept", a.reg = b.reg => EqSeq(r.reg, a.reg))
Unary(e) ==
  LET a == e.a r == e.r
  IN IF e.op = "addstream" /\ a.unit # e.b.unit THEN Fails("series of different unit are not added", e.res = "refused") ELSE
     IF e.res # "ok" THEN {"the operation " \o e.op \o " succeeds"} ELSE
     CASE e.op = "calendar" -> Fails("calendar-day rate", SamePeriods(r, a) /\ r.unit = a.unit /\ r.rt = "CALENDAR_DAY" /\ EqSeq(r.v, CalOf(a)) /\ EqSeq(r.reg, a.reg))
       [] e.op = "stream" -> Fails("stream-day rate", SamePeriods(r, a) /\ r.unit = a.unit /\ r.rt = "STREAM_DAY" /\ EqSeq(r.v, StreamOf(a)) /\ EqSeq(r.reg, a.reg))
       [] e.op = "streamseries" -> Fails("stream-day series", SamePeriods(r, a) /\ r.unit = a.unit /\ EqSeq(r.v, StreamOf(a)))
       [] e.op = "volumes" -> Fails("volumes of a rate", SamePeriods(r, a) /\ r.k = "vol" /\ r.unit = VolUnit[a.unit] /\ EqSeq(r.v, VolOf(a)))
       [] e.op = "cumulative" -> Fails("cumulative volumes", SamePeriods(r, a) /\ r.k = "cum" /\ r.unit = a.unit /\ EqSeq(r.v, CumOfVol(a)))
       [] e.op = "decumulate" -> Fails("volumes of cumulative volumes", SamePeriods(r, a) /\ r.k = "vol" /\ r.unit = a.unit
                                     /\ \A i \in 1..N(a) : NearTo(r.v[i], RSub(a.v[i], IF i = 1 THEN Zero ELSE a.v[i - 1]), RMul("1/1000000000", RAbs(a.v[i]))))
       [] e.op = "rate" -> Fails("average rate of volumes", SamePeriods(r, a) /\ r.k = "rate" /\ r.unit = RateUnit[a.unit] /\ r.rt = "CALENDAR_DAY"
                                     /\ EqSeq(r.v, [i \in 1..N(a) |-> RDiv(a.v[i], Span(a, i))]))
       [] e.op = "unit" -> Fails("unit conversion", SamePeriods(r, a) /\ r.k = a.k /\ r.unit = e.unit
                                     /\ EqSeq(r.v, [i \in 1..N(a) |-> IF a.v[i] = "nan" THEN "nan" ELSE Converted(a.v[i], a.unit, e.unit)]))
       [] e.op = "index" -> Fails("the chosen periods with their own values", IsPart(r, a, e.I))
       [] e.op = "fillnan" -> Fails("missing values replaced, others kept", SamePeriods(r, a) /\ Same(r, a) /\ EqSeq(r.v, [i \in 1..N(a) |-> IF a.v[i] = "nan" THEN e.fill ELSE a.v[i]]))
       [] e.op = "ffill" -> Fails("missing values take the latest known", SamePeriods(r, a) /\ Same(r, a)
                                 /\ \A i \in 1..N(a) : LET K == {j \in 1..i : a.v[j] # "nan"}
                                       IN IF K = {} THEN r.v[i] = "nan" ELSE Eq(r.v[i], a.v[CHOOSE j \in K : \A m \in K : m <= j]))
       [] e.op = "and" -> Fails("valid where both are", SamePeriods(r, a) /\ r.v = [i \in 1..N(a) |-> a.v[i] /\ e.b.v[i]])
       [] e.op = "addstream" -> Fails("sum of stream-day series", SamePeriods(r, a) /\ Same(r, a) /\ EqSeq(r.v, Sum0(a.v, e.b.v)))
       [] e.op = "intensity" -> Fails("volume per volume, unknown where the divisor is zero", SamePeriods(r, a)
                                     /\ EqSeq(r.v, [i \in 1..N(a) |-> IF REq(e.b.v[i], Zero) THEN "nan" ELSE RDiv(a.v[i], e.b.v[i])])
                                     /\ r.unit = (IF e.b.unit = "Sm3" THEN "kg/Sm3" ELSE "kg/BOE"))
       [] e.op = "newperiods" -> Fails("the new periods have the old values, and the filler elsewhere", Same(r, a) /\ r.s = e.s /\ r.e = e.e
                                     /\ Len(r.v) = Len(e.s) /\ \A i \in DOMAIN e.s : LET J == {j \in 1..N(a) : a.s[j] = e.s[i] /\ a.e[j] = e.e[i]}
                                            IN EqOf(a.k, r.v[i], IF J = {} THEN e.fill ELSE a.v[CHOOSE j \in J : TRUE]))
\* The part of a series within [from, to], both among its dates.
Slice(e) ==
  LET a == e.a I == SortInts({i \in 1..N(a) : e.from <= a.s[i] /\ a.e[i] <= e.to})
      dates == Range(a.s) \cup {a.e[N(a)]}
  IN IF {e.from, e.to} \subseteq dates
     THEN Fails("the part within the period", e.res = "ok" /\ IsPart(e.r, a, I))
     ELSE IF a.k = "rate" /\ (e.to <= a.s[1] \/ a.e[N(a)] <= e.from) THEN Fails("nothing outside the series", e.res = "ok" /\ e.r.v = <<>>)
     ELSE IF a.k # "rate" THEN Fails("a period that does not fit is refused", e.res = "refused")
     ELSE {}
Join(e) ==
  LET a == e.a b == e.b
      fits == a.e[N(a)] = b.s[1]  back == b.e[N(b)] = a.s[1]
  IN IF a.unit # b.unit \/ a.k # b.k \/ (a.k = "rate" /\ a.rt # b.rt) THEN Fails("series of different kinds are not joined", e.res = "refused")
     ELSE IF fits THEN Fails("joined in order", e.res = "ok" /\ Joined(e.r, a, b))
     ELSE IF back THEN (IF e.op = "merge" \/ a.k # "rate" THEN Fails("joined in order of time", e.res = "ok" /\ Joined(e.r, b, a)) ELSE {})
     ELSE IF e.op = "merge" \/ a.k # "rate" THEN Fails("series with a gap or overlap are not joined", e.res = "refused") ELSE {}

(* ---- resampling ---- *)
\* Differences of large cumulative volumes: the tolerance is relative to the whole volume.
Tol(S, v) == RAdd("1/1000000000", RMul("1/1000000000", Size(S, v)))
Resample(e) ==
  LET a == e.a r == e.r
      D == NewDates(a.s[1], a.e[N(a)], e.freq, e.first, e.last)
      n == Len(D) - 1
  IN IF e.freq = "NONE" THEN Fails("without a frequency nothing changes", e.res = "ok" /\ IsPart(r, a, [i \in 1..N(a) |-> i]))
     ELSE IF n < 1 THEN {}
     ELSE IF e.res # "ok" THEN {"a series can be resampled"}
     ELSE IF ~(Len(r.v) = n /\ r.s = SubSeq(D, 1, n) /\ r.e = SubSeq(D, 2, n + 1) /\ r.unit = a.unit /\ (r.k = a.k) /\ WellFormedSeries(r))
          THEN {"resampled to the dates of the frequency, in the same unit"}
     ELSE CASE a.k = "rate" ->
            LET cal == CalOf(a) str == StreamOf(a) tc == Tol(a, cal) ts == Tol(a, str) rc == CalOf(r)
                days == [i \in 1..n |-> RDiv(RInt(D[i + 1] - D[i]), "1440")]
                CV == [i \in 1..n |-> Integral(a, cal, D[i], D[i + 1])]
                SV == [i \in 1..n |-> Integral(a, str, D[i], D[i + 1])]
            IN Fails("resampled rate: same type", r.rt = a.rt)
               \cup Fails("resampling a rate preserves the volume of every period", \A i \in 1..n : NearTo(RMul(rc[i], days[i]), CV[i], tc))
               \cup Fails("resampled stream-day rate is the average stream-day rate",
                      a.rt = "STREAM_DAY" => \A i \in 1..n : RLe(RAbs(CV[i]), RMul("1000000", tc)) \/ NearTo(RMul(r.v[i], days[i]), SV[i], RMul("1000", ts)))
               \cup Fails("resampled regularity relates calendar and stream day volumes",
                      \A i \in 1..n : IF REq(SV[i], Zero) THEN TRUE ELSE RLe(RAbs(SV[i]), RMul("1000000", ts)) \/ NearTo(r.reg[i], RDiv(CV[i], SV[i]), "1/10000"))
       [] a.k = "vol" -> LET per == [i \in 1..N(a) |-> RDiv(a.v[i], Span(a, i))]
                         IN Fails("resampling preserves volumes", \A i \in 1..n : NearTo(r.v[i], Integral(a, per, D[i], D[i + 1]), Tol(a, per)))
       [] a.k = "cum" -> Fails("resampled cumulative volumes",
                            \A i \in 1..n : NearTo(r.v[i], RSub(Level(a, D[i + 1]), IF e.first THEN Zero ELSE Level(a, D[1])), RMul("1/1000000000", RAbs(a.v[N(a)]))))
       [] a.k = "bool" -> Fails("valid over a new period when valid throughout it",
                            \A i \in 1..n : r.v[i] = (\A j \in 1..N(a) : Overlap(a, j, D[i], D[i + 1]) > 0 => a.v[j]))
       [] OTHER -> Fails("a resampled value is the one in force at the start of the period",
                            \A i \in 1..n : LET x == AtTime(a, D[i]) IN x = "nan" \/ (IF a.k = "str" THEN r.v[i] = x ELSE Eq(r.v[i], x)))

Verdict(e) == CASE e.op = "add" -> Add(e)
                [] e.op \in {"forperiod", "forperiods"} -> Slice(e)
                [] e.op \in {"merge", "extend"} -> Join(e)
                [] e.op = "resample" -> Resample(e)
                [] OTHER -> Unary(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
