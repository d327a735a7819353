-------------------------------- MODULE Rates --------------------------------
(* Rates, regularity, volumes and resampling.  A rate is per stream day (while producing) or per
   calendar day; calendar = stream * regularity.  A value that could not be computed is "nan".     *)
EXTENDS Timeline

ToCalendar(stream, reg) == RMul(stream, reg)
\* No production at regularity 0, so a calendar-day rate corresponds to no stream-day rate.
ToStream(cal, reg) == IF REq(reg, Zero) THEN Zero ELSE RDiv(cal, reg)
NanZero(x) == IF x = "nan" THEN Zero ELSE x

\* Volume of a calendar-day rate over each period, and the running total (missing values add nothing).
Volumes(cal, tv) == [i \in 1..Len(cal) |-> RMul(cal[i], Days(tv, i))]
Cumulative(vol) == RunningSum(MapSeq(NanZero, vol))
CumVolumes(cal, tv) == Cumulative(Volumes(cal, tv))
\* Energy in GWh from a power in MW.
GWh(cal, tv) == Cumulative([i \in 1..Len(cal) |-> RDiv(RMul(RMul(cal[i], Days(tv, i)), "24"), "1000")])

\* The sum of several series over n periods: one term stands for itself, in a longer sum missing values add nothing.
SumSeries(ss, n) == IF Len(ss) = 1 THEN ss[1]
                    ELSE SumSeqs([k \in DOMAIN ss |-> MapSeq(NanZero, ss[k])], n)
\* Stream-day and calendar-day sums of rates with their own regularities.
CalSum(rates, regs, n) ==
  SumSeries([k \in DOMAIN rates |-> [i \in 1..n |-> ToCalendar(rates[k][i], regs[k][i])]], n)
=============================================================================
