----------------------------- MODULE SystemTrace -----------------------------
(* Recorded consumer systems: one event per system of an evaluated model.
   e = [units, settings, reg, cond, plf, fuel, energy, power, valid, used, models]
   settings : the evaluated inputs, rates per calendar day; models : per unit the [rate, s, d, energy, power, valid] reported;
   fuel : do the units use fuel                                                                                               *)
EXTENDS System, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Same(x, y) == (RIsNan(x) /\ RIsNan(y)) \/ Near(x, y)

StreamDay(e, st) == [st EXCEPT !.rate = [c \in Dom(st.rate) |-> [i \in Dom(st.rate[c]) |->
                        IF REq(e.cond[i], Zero) \/ REq(e.reg, Zero) THEN Zero ELSE RDiv(st.rate[c][i], e.reg)]]]
Unit(x) == IF x.kind = "pump" THEN [kind |-> "pump", ch |-> ChartOf(x.t, x.u), margin |-> x.margin] ELSE x
\* the unit's results given its reported rate
UnitOk(e, x, m, st, c, i) ==
  LET s == st.s[c][i] d == st.d[c][i] r == m.rate[i] v == m.valid[i] en == m.energy[i]
  IN Fails("pressures of the unit", Near(m.s[i], s) /\ Near(m.d[i], d))
     \cup (IF x.kind = "pump" THEN Fails("power of the pump", PumpOk(x.ch, RMul(x.margin, "981/100"), r, s, d, st.rho[c][i], FALSE, IF v THEN en ELSE Zero, v)
                                                          \/ (~v /\ en # T!NoVal /\ FALSE \in Able(x, r, s, d, st.rho[c][i])))
           ELSE IF x.g = <<>> THEN Fails("energy usage of the compressor", T!EnergyOk(x.t, x.a, r, s, d, en) /\ v = ~RIsNan(en))
           ELSE Fails("power of the compressor", T!EnergyOk(x.t, x.a, r, s, d, m.power[i]))
                \cup LET load == IF RIsNan(m.power[i]) THEN T!NoVal ELSE T!Adjusted(x.w, m.power[i])
                     IN Fails("fuel of the turbine", Same(en, T!TurbineFuel(x.g[1], load)))
                        \cup Fails("validity of the turbine", v = (~RIsNan(load) /\ T!TurbineValid(x.g[1], load))))

RECURSIVE SumE(_, _)
SumE(models, i) == IF models = <<>> THEN Zero
                   ELSE LET x == Head(models).energy[i] y == SumE(Tail(models), i) IN IF RIsNan(x) \/ RIsNan(y) THEN T!NoVal ELSE RAdd(x, y)
Expected(e, i) == LET x == SumE(e.models, i)
                  IN IF RIsNan(x) THEN x ELSE RMul(RDiv(x, RSub(One, e.plf[i])), IF e.fuel THEN e.reg ELSE One)
\* rates to 1e-9 of all the setting's rates; the limit of a turbine is searched for, to 1e-4
RateOk(turbine, all, got, want) == Near(got, want) \/ RLe(RAbs(RSub(got, want)), RMul(IF turbine THEN "1/10000" ELSE "1/1000000000", all))
PeriodOk(e, units, settings, i) ==
  LET k == e.used[i] st == settings[k]
      turbine == \E c \in Dom(units) : units[c].kind = "comp" /\ units[c].g # <<>>
      passed == AllPassed(units, st, i)
      all == RSum([c \in Dom(units) |-> st.rate[c][i]])
  IN IF k \notin Dom(settings) THEN {"setting used"}
     ELSE IF \E z \in Dom(settings), c \in Dom(units) :
               /\ units[c].kind = "comp" /\ units[c].g # <<>> /\ settings[z].cross[c] # 0 /\ RLt(Zero, settings[z].rate[c][i])
               /\ Starved(units[c], TableMax(units[c].t, settings[z].s[c][i], settings[z].d[c][i]), settings[z].s[c][i], settings[z].d[c][i])
          THEN {}
     ELSE Fails("setting used", MayUse(units, settings, k, i))
          \cup UNION {UnitOk(e, units[c], e.models[c], st, c, i)
                      \cup Fails("rate of the unit", RateOk(turbine, all, e.models[c].rate[i], After(st, passed, c, i)))
                      : c \in Dom(units)}
          \cup Fails("sum of energy usage", Same(e.energy[i], Expected(e, i)))
          \cup Fails("validity", e.valid[i] = (\A c \in Dom(units) : e.models[c].valid[i]))
          \cup (IF e.fuel THEN {} ELSE Fails("power", Same(e.power[i], e.energy[i])))
Verdict(e) ==
  LET n == Len(e.cond)
      units == TLCEval([c \in Dom(e.units) |-> Unit(e.units[c])])
      settings == TLCEval([k \in Dom(e.settings) |-> StreamDay(e, e.settings[k])])
  IN IF Len(e.energy) # n \/ Len(e.valid) # n \/ Len(e.used) # n \/ Len(e.models) # Len(units) THEN {"one value per period"}
     ELSE UNION {PeriodOk(e, units, settings, i) : i \in 1..n}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
===============================================================================
