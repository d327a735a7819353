------------------------------- MODULE Series -------------------------------
(* Time series of results and the operations on them.

   A series is a record [k, s, e, v, unit, rt, reg]: kind k ("rate", "vol", "cum", "float", "int", "str" or "bool"), the starts s
   and ends e (instants) of its periods, one value per period, and for a rate its type rt and regularity per period.  A value
   that could not be computed is "nan".                                                                              *)
EXTENDS Rates

N(S) == Len(S.v)
Span(S, i) == RDiv(RInt(S.e[i] - S.s[i]), "1440")
WellFormedSeries(S) == Len(S.s) = Len(S.v) /\ Len(S.e) = Len(S.v) /\ (S.k = "rate" => Len(S.reg) = Len(S.v))
CalOf(S) == IF S.rt = "CALENDAR_DAY" THEN S.v ELSE [i \in 1..N(S) |-> ToCalendar(S.v[i], S.reg[i])]
StreamOf(S) == IF S.rt = "STREAM_DAY" THEN S.v ELSE [i \in 1..N(S) |-> ToStream(S.v[i], S.reg[i])]
VolOf(S) == [i \in 1..N(S) |-> RMul(CalOf(S)[i], Span(S, i))]
CumOfVol(S) == RunningSum(MapSeq(NanZero, S.v))
Sum0(a, b) == [i \in DOMAIN a |-> RAdd(NanZero(a[i]), NanZero(b[i]))]

RateUnit == [x \in {"Sm3", "MWd", "t", "kg", "L"} |-> CASE x = "Sm3" -> "Sm3/d" [] x = "MWd" -> "MW" [] x = "t" -> "t/d" [] x = "kg" -> "kg/d" [] x = "L" -> "L/d"]
VolUnit == [x \in {"Sm3/d", "MW", "t/d", "kg/d", "L/d"} |-> CASE x = "Sm3/d" -> "Sm3" [] x = "MW" -> "MWd" [] x = "t/d" -> "t" [] x = "kg/d" -> "kg" [] x = "L/d" -> "L"]

(* ---- unit conversion: y = x * factor + offset ---- *)
Conv(f, t) ==
  CASE f = t -> <<"1", "0">>
    [] <<f, t>> \in {<<"t/d", "kg/d">>, <<"t", "kg">>, <<"Sm3", "L">>, <<"kJ/kg", "J/kg">>} -> <<"1000", "0">>
    [] <<f, t>> \in {<<"kg/d", "t/d">>, <<"kg", "t">>, <<"L", "Sm3">>, <<"J/kg", "kJ/kg">>} -> <<"1/1000", "0">>
    [] <<f, t>> = <<"C", "K">> -> <<"1", "5463/20">>
    [] <<f, t>> = <<"K", "C">> -> <<"1", "-5463/20">>
    [] <<f, t>> \in {<<"bara", "kPa">>, <<"frac", "%">>} -> <<"100", "0">>
    [] <<f, t>> \in {<<"kPa", "bara">>, <<"%", "frac">>} -> <<"1/100", "0">>
    [] <<f, t>> = <<"bara", "Pa">> -> <<"100000", "0">>
    [] <<f, t>> = <<"Pa", "bara">> -> <<"1/100000", "0">>
    [] <<f, t>> = <<"N.m/kg", "J/kg">> -> <<"981/100", "0">>
    [] <<f, t>> = <<"N.m/kg", "kJ/kg">> -> <<"981/100000", "0">>
    [] <<f, t>> = <<"J/kg", "N.m/kg">> -> <<"100/981", "0">>
    [] <<f, t>> = <<"kJ/kg", "N.m/kg">> -> <<"100000/981", "0">>
    [] <<f, t>> \in {<<"kg/BOE", "kg/Sm3">>, <<"Sm3", "BOE">>} -> <<"629/100", "0">>
    [] <<f, t>> \in {<<"kg/Sm3", "kg/BOE">>, <<"BOE", "Sm3">>} -> <<"100/629", "0">>
    [] <<f, t>> = <<"MWd", "GWh">> -> <<"24/1000", "0">>
    [] OTHER -> <<>>
Converted(x, f, t) == RAdd(RMul(x, Conv(f, t)[1]), Conv(f, t)[2])

(* ---- the civil calendar ---- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysBeforeYear(y) == 365 * (y - 1900) + ((y - 1901) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)   \* from 1900-01-01, y >= 1900
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthLen(y, m - 1)
Midnight(y, m) == 1440 * (DaysBeforeYear(y) + DaysBeforeMonth(y, m))
YearOf(t) == LET d == t \div 1440 g == 1900 + (d \div 366)
             IN CHOOSE y \in g..(g + 2) : DaysBeforeYear(y) <= d /\ d < DaysBeforeYear(y + 1)
\* The reporting dates of a frequency strictly between two instants.
Grid(a, b, freq) ==
  LET Y == YearOf(a)..YearOf(b)
      G == CASE freq = "YEAR" -> {Midnight(y, 1) : y \in Y}
             [] freq = "MONTH" -> {Midnight(y, m) : y \in Y, m \in 1..12}
             [] freq = "DAY" -> {1440 * d : d \in ((a \div 1440) + 1)..(b \div 1440)}
  IN {t \in G : a < t /\ t < b}
\* The dates a series over [a, b] is resampled to.
NewDates(a, b, freq, first, last) ==
  SortInts(Grid(a, b, freq) \cup (IF first THEN {a} ELSE {}) \cup (IF last THEN {b} ELSE {}))

(* ---- resampling: what happened in a new period is what happened in the old ones, by time ---- *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Overlap(S, i, a, b) == LET x == Max2(S.s[i], a) y == Min2(S.e[i], b) IN IF x < y THEN y - x ELSE 0
\* The integral of a piecewise constant quantity (per day) of S over [a, b].
Integral(S, v, a, b) ==
  LET T == [i \in 1..N(S) |-> LET o == Overlap(S, i, a, b) IN IF o = 0 \/ v[i] = "nan" THEN Zero ELSE RMul(v[i], RInt(o))]
  IN RDiv(RSum(T), "1440")
Size(S, v) == RDiv(RSum([i \in 1..N(S) |-> IF v[i] = "nan" THEN Zero ELSE RAbs(RMul(v[i], RInt(S.e[i] - S.s[i])))]), "1440")
\* The entry in force at t.
AtTime(S, t) == S.v[CHOOSE i \in 1..N(S) : S.s[i] <= t /\ t < S.e[i]]
\* The level at t of a cumulative quantity, straight between the ends of its periods.
Level(S, t) ==
  IF t <= S.s[1] THEN Zero
  ELSE LET i == CHOOSE i \in 1..N(S) : S.s[i] < t /\ t <= S.e[i]
           p == IF i = 1 THEN Zero ELSE S.v[i - 1]
       IN RAdd(p, RMul(RSub(S.v[i], p), RDiv(RInt(t - S.s[i]), RInt(S.e[i] - S.s[i]))))
=============================================================================
