----------------------------- MODULE PumpTrace -----------------------------
(* Recorded pumps: one event per consumer of an evaluated model.
   e = [t, u, margin, reg, rate, cond, ps, pd, rho, plf, exact, energy, power, valid, head, mrate, mvalid]
   margin in meters of liquid column; rate, cond, ps, pd, rho, plf : the evaluated inputs per period, energy, power, valid : the
   consumer's results; head, mrate, mvalid : the head, rate and validity its model reports                                       *)
EXTENDS Pump, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Rate(e, i) == IF REq(e.cond[i], Zero) \/ REq(e.reg, Zero) THEN Zero ELSE RDiv(e.rate[i], e.reg)
Own(e, i) == RMul(e.energy[i], RSub(One, e.plf[i]))
PeriodOk(e, ch, i) ==
  LET r == Rate(e, i)
      ok == e.valid[i]
  IN Fails("power", PumpOk(ch, RMul(e.margin, "981/100"), r, e.ps[i], e.pd[i], e.rho[i], e.exact[i], IF ok THEN Own(e, i) ELSE Zero, ok))
     \cup Fails("energy usage is power", e.power[i] = e.energy[i])
     \cup Fails("validity", e.mvalid[i] = ok)
     \cup Fails("rate of the model", Near(e.mrate[i], r))
     \cup Fails("head of the model", Near(e.head[i], IF RLe(r, Zero) THEN Zero ELSE HeadOf(e.ps[i], e.pd[i], e.rho[i])))
Verdict(e) ==
  LET n == Len(e.rate) ch == ChartOf(e.t, e.u)
  IN IF {Len(e.energy), Len(e.power), Len(e.valid), Len(e.head), Len(e.mrate), Len(e.mvalid)} # {n} THEN {"one value per period"}
     ELSE UNION {PeriodOk(e, ch, i) : i \in 1..n}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
