------------------------------- MODULE Export -------------------------------
(* What the prognosis exports report, and emission intensities: from the results o of the parts of a model M, period by period,
   to one value per column and reporting period.                                                                       *)
EXTENDS Model, Columns
LOCAL Sr == INSTANCE Series

CatAt(tm, t) == IF Defined(tm, t) THEN InForce(tm, t) ELSE ""
FuelCatAt(M, in, x, t) == CatAt([j \in Dom(FuelOf(in, x)) |-> [t |-> FuelOf(in, x)[j].t, v |-> M.fuelcat[FuelOf(in, x)[j].v]]], t)
Passes(filter, cat) == filter = <<>> \/ cat \in Range(filter)
CalRate(r) == IF r.rt = "CALENDAR_DAY" THEN r.v ELSE [i \in Dom(r.v) |-> ToCalendar(r.v[i], r.reg[i])]

\* A contribution: its amount per calendar day in each period, and its categories in each period.
Part(v, fuel, cons, prod) == [v |-> MapSeq(NanZero, v), fuel |-> fuel, cons |-> cons, prod |-> prod]
Cats(tm, st) == [i \in Dom(st) |-> CatAt(tm, st[i])]
None(st) == ConstSeq("", Len(st))
FuelUserPart(M, in, x, v, st) == Part(v, [i \in Dom(st) |-> FuelCatAt(M, in, x, st[i])], Cats(x.cat, st), None(st))

FuelParts(M, k, o, st) ==
  [j \in Dom(M.inst[k].fuelcons) |-> FuelUserPart(M, M.inst[k], M.inst[k].fuelcons[j], CalRate(o.fuelcons[j].energy), st)]
  \o [g \in Dom(M.inst[k].gensets) |-> FuelUserPart(M, M.inst[k], M.inst[k].gensets[g], CalRate(o.gensets[g].c.energy), st)]
EmRate(oc, em, st) == LET I == {i \in Dom(oc.em) : Lower(oc.em[i].name) = em}
                      IN IF I = {} THEN ConstSeq(Zero, Len(st)) ELSE CalRate(oc.em[CHOOSE i \in I : TRUE].rate)
EmissionParts(M, k, o, em, st) ==
  [j \in Dom(M.inst[k].fuelcons) |-> FuelUserPart(M, M.inst[k], M.inst[k].fuelcons[j], EmRate(o.fuelcons[j], em, st), st)]
  \o [g \in Dom(M.inst[k].gensets) |-> FuelUserPart(M, M.inst[k], M.inst[k].gensets[g], EmRate(o.gensets[g].c, em, st), st)]
  \o [j \in Dom(M.inst[k].vents) |-> Part(EmRate(o.vents[j], em, st), None(st), ConstSeq(M.inst[k].vents[j].cat, Len(st)), None(st))]
OilParts(M, k, env, reg, st) ==
  LET V == SelectSeq(M.inst[k].vents, LAMBDA v : v.k = "oil")
  IN [j \in Dom(V) |-> Part([i \in Dom(st) |-> ToCalendar(VentRate(V[j].rate, env, reg, i), reg[i])], None(st), ConstSeq(V[j].cat, Len(st)), None(st))]
GWhDay(v) == MapSeq(LAMBDA x : RMul(x, "24/1000"), v)
Loss(g, env, st, i) == IF g.loss # <<>> /\ CatAt(g.cat, st[i]) = "POWER-FROM-SHORE" THEN Eval(g.loss, env, i) ELSE Zero
GeneratedParts(M, k, o, env, st) ==
  [g \in Dom(M.inst[k].gensets) |->
     LET G == M.inst[k].gensets[g] p == CalRate(o.gensets[g].c.power)
     IN Part(GWhDay([i \in Dom(st) |-> RMul(p[i], RAdd(One, Loss(G, env, st, i)))]), None(st), None(st), Cats(G.cat, st))]
MaxShoreParts(M, k, env, st) ==
  LET G == SelectSeq(M.inst[k].gensets, LAMBDA g : g.maxshore # <<>>)
  IN [g \in Dom(G) |-> Part([i \in Dom(st) |-> Eval(G[g].maxshore, env, i)], None(st), None(st), Cats(G[g].cat, st))]
PowerParts(M, k, o, st) ==
  Flatten([g \in Dom(M.inst[k].gensets) |->
     [j \in Dom(M.inst[k].gensets[g].cons) |->
        Part(GWhDay(CalRate(o.gensets[g].cons[j].power)), None(st), Cats(M.inst[k].gensets[g].cons[j].cat, st), Cats(M.inst[k].gensets[g].cat, st))]])
  \o LET J == SelectSeq([j \in Dom(M.inst[k].fuelcons) |-> j], LAMBDA j : o.fuelcons[j].power.v # <<>>)
     IN [x \in Dom(J) |-> Part(GWhDay(CalRate(o.fuelcons[J[x]].power)), None(st), Cats(M.inst[k].fuelcons[J[x]].cat, st), None(st))]

Parts(M, k, o, env, reg, c, st) ==
  CASE c.q = "fuel" -> FuelParts(M, k, o, st)
    [] c.q = "emission" -> EmissionParts(M, k, o, c.em, st)
    [] c.q = "oil" -> OilParts(M, k, env, reg, st)
    [] c.q = "generated" -> GeneratedParts(M, k, o, env, st)
    [] c.q = "maxshore" -> MaxShoreParts(M, k, env, st)
    [] c.q = "power" -> PowerParts(M, k, o, st)
\* The column's amount per day in each original period.
Amount(M, k, o, env, reg, c, st) ==
  LET P == Parts(M, k, o, env, reg, c, st)
  IN [i \in Dom(st) |-> RSum([p \in Dom(P) |-> IF /\ (c.fuel = "" \/ P[p].fuel[i] = c.fuel)
                                                  /\ Passes(c.cons, P[p].cons[i]) /\ Passes(c.prod, P[p].prod[i])
                                               THEN P[p].v[i] ELSE Zero])]
\* The dates of the report.
ReportDates(tv, freq) == IF freq = "NONE" THEN tv ELSE Sr!NewDates(tv[1], tv[Len(tv)], freq, TRUE, TRUE)
AsSeries(tv) == [s |-> Starts(tv), e |-> Ends(tv), v |-> Starts(tv)]
Reported(c, amount, tv, a, b) ==
  LET S == AsSeries(tv)
      x == IF c.q = "maxshore" THEN MaxOf(LET I == SelectSeq([i \in Dom(amount) |-> i], LAMBDA i : Sr!Overlap(S, i, a, b) > 0) IN [j \in Dom(I) |-> amount[I[j]]])
           ELSE Sr!Integral(S, amount, a, b)
  IN IF c.neg THEN RNeg(x) ELSE x
Columns(table, cat) == SelectSeq(table, LAMBDA c : c.inst \in {"", cat})
Heading(c) == c.title \o "[" \o c.unit \o "]"
Year(t) == Sr!YearOf(t)
Month(t) == CHOOSE m \in 1..12 : Sr!Midnight(Year(t), m) <= t /\ t < Sr!Midnight(Year(t), m) + 1440 * Sr!MonthLen(Year(t), m)
\* Written with six significant decimals.
Written(text, x) == RClose(text, x, "5001/10000000000", "7/10000000")

(* ---- emission intensity: kilograms of CO2 per exported amount, cumulative and per year ---- *)
SumOver(v, tv, a, b) == Sr!Integral(AsSeries(tv), v, a, b)
Gross(v, tv) == RSum([i \in Dom(v) |-> RAbs(RMul(NanZero(v[i]), RInt(tv[i + 1] - tv[i])))])
Intensity(co2, hc, tv, a, b) == RDiv(RMul(SumOver(co2, tv, a, b), "1000"), SumOver(hc, tv, a, b))
\* Where the exported amount is nothing there is no intensity; where it cancels to rounding error the value is not determined.
IntensityOk(r, co2, hc, tv, a, b, per) ==
  LET h == SumOver(hc, tv, a, b)
  IN IF REq(h, Zero) THEN r = "nan" \/ ~REq(Gross(hc, tv), Zero)
     ELSE RLe(RAbs(h), RMul("1/1000000000000", Gross(hc, tv)))
          \/ RClose(r, RDiv(Intensity(co2, hc, tv, a, b), per), "1/10000000", RMul("1/1000000000", RAbs(RDiv(RMul(Gross(co2, tv), "1000"), h))))
=============================================================================
