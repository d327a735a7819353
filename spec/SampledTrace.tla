--------------------------- MODULE SampledTrace ---------------------------
(* Recorded compressors with sampled tables, alone or driving a turbine: one event per consumer of an evaluated model.
   e = [t, a, drive, w, g, rate, cond, reg, s, d, plf, energy, power, valid, unit]
   rate, cond, s, d, plf : the evaluated inputs per period; reg : the regularity; drive : "el", "fuel" or "turbine"          *)
EXTENDS Sampled, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}

\* the stream-day rate the compressor has to handle
Rate(e, i) == IF REq(e.cond[i], Zero) \/ REq(e.reg, Zero) THEN Zero ELSE RDiv(e.rate[i], e.reg)
At(q, i) == IF q = <<>> THEN Zero ELSE q[i]
Lossy(e, i, x) == IF RIsNan(x) \/ REq(e.plf[i], Zero) THEN x ELSE RDiv(x, RSub(One, e.plf[i]))
Same(x, y) == (RIsNan(x) /\ RIsNan(y)) \/ Near(x, y)

\* fuel is reported per calendar day, power per stream day
Calendar(e, x) == IF RIsNan(x) \/ e.drive = "el" THEN x ELSE RMul(x, e.reg)
\* the table's own energy usage: the reported one without losses
Own(e, i) == IF RIsNan(e.energy[i]) THEN NoVal ELSE RDiv(RMul(e.energy[i], RSub(One, e.plf[i])), IF e.drive = "el" THEN One ELSE e.reg)
PeriodOk(e, i) ==
  IF e.drive = "turbine"
  THEN \* e.load : the compressor's own power, reported per stage
       LET load == Adjusted(e.w, e.load[i])
       IN Fails("load of the turbine", EnergyOk(e.t, e.a, Rate(e, i), At(e.s, i), At(e.d, i), e.load[i]))
          \cup Fails("fuel of the turbine", Same(e.energy[i], Calendar(e, Lossy(e, i, TurbineFuel(e.g, load)))))
          \cup Fails("power of the turbine", Same(e.power[i], Lossy(e, i, Shaft(e.g, load))))
          \cup (IF RIsNan(e.load[i]) THEN Fails("validity", ~e.valid[i])
                ELSE IF REq(e.g.c, Zero) /\ REq(e.g.f, One) THEN Fails("validity", e.valid[i] = TurbineValid(e.g, load))
                ELSE {})
  ELSE IF e.drive = "fuel" /\ REq(e.reg, Zero) THEN Fails("energy usage", REq(e.energy[i], Zero))
  ELSE Fails("energy usage", EnergyOk(e.t, e.a, Rate(e, i), At(e.s, i), At(e.d, i), Own(e, i)))
       \cup (IF e.drive = "el" THEN Fails("power", Same(e.power[i], e.energy[i])) \cup Fails("validity", e.valid[i] = ~RIsNan(e.energy[i]))
             ELSE IF e.t.p = <<>> THEN Fails("power", e.power = <<>>) \cup Fails("validity", e.valid[i] = ~RIsNan(e.energy[i]))
             ELSE LET f == Own(e, i)
                      p == IF Near(f, MinOf(e.t.e)) /\ ~REq(e.power[i], Zero) THEN PowerOfFuel(e.t, MinOf(e.t.e))
                           ELSE IF Near(f, MaxOf(e.t.e)) /\ ~RIsNan(e.power[i]) THEN PowerOfFuel(e.t, MaxOf(e.t.e))
                           ELSE IF Near(f, MaxOf(e.t.e)) THEN NoVal
                           ELSE PowerOfFuel(e.t, f)
                  IN Fails("power", Len(e.power) = Len(e.energy) /\ Same(e.power[i], Lossy(e, i, p)))
                     \cup Fails("validity", e.valid[i] = ~(RIsNan(e.energy[i]) \/ RIsNan(p))))

Verdict(e) ==
  LET n == Len(e.rate)
  IN IF Len(e.energy) # n \/ Len(e.valid) # n \/ (e.drive # "fuel" /\ Len(e.power) # n) THEN {"one value per period"}
     ELSE Fails("unit", e.unit = IF e.drive = "el" THEN "MW" ELSE "Sm3/d") \cup UNION {PeriodOk(e, i) : i \in 1..n}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
