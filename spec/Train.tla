------------------------------- MODULE Train -------------------------------
(* Compressor trains on a common shaft.

   A stage st = [ch, t, drop, outs, ins] : its chart (in use, margin included), the temperature the gas is cooled to ahead of it,
   the pressure lost ahead of it, and the streams taken out and mixed in there.  Pressures in bara, temperatures in kelvin, rates in m3/h, masses in kg/h, heads in J/kg.

   Ahead of each stage the pressure drops, the gas is cooled and what condenses is taken out; the compressor lifts the gas, with
   what is recirculated around it, to the head and efficiency its chart has at the speed of the shaft.                          *)
EXTENDS Chart, Fluid

RDbl(x) == RPow(x, One)
StagesOf(sts) == TLCEval([k \in Dom(sts) |-> [ch |-> CompressorChart(sts[k].curves, sts[k].margin), t |-> sts[k].t, drop |-> sts[k].drop, outs |-> Zero, ins |-> <<>>]])
Slowest(sts) == MaxOf([k \in Dom(sts) |-> MinSpeed(sts[k].ch)])
Fastest(sts) == MinOf([k \in Dom(sts) |-> MaxSpeed(sts[k].ch)])

\* streams taken out ahead of a stage (Sm3/d), and what then is mixed into the rest, moles with moles: [m, mass]
Fed(st, m, mass) ==
  LET left == IF REq(st.outs, Zero) THEN mass ELSE RMax(Zero, RSub(mass, MassRate(m, st.outs)))
      more == TLCEval([k \in Dom(st.ins) |-> RDbl(MassRate(st.ins[k], st.ins[k].sm))])
      moles == RAdd(RDiv(left, MolarMass(m.x)), RSum([k \in Dom(more) |-> RDiv(more[k], MolarMass(st.ins[k].x))]))
      x(i) == RAdd(RMul(RDiv(left, MolarMass(m.x)), Norm(m.x)[i]), RSum([k \in Dom(more) |-> RMul(RDiv(more[k], MolarMass(st.ins[k].x)), Norm(st.ins[k].x)[i])]))
  IN IF st.ins = <<>> \/ REq(moles, Zero) THEN [m |-> m, mass |-> left]
     ELSE TLCEval([m |-> [m EXCEPT !.x = TLCEval([i \in DOMAIN m.x |-> RDbl(RDiv(x(i), moles))])], mass |-> RDbl(RAdd(left, RSum(more)))])
\* the gas at the inlet of a compressor, from gas m at pressure p: [m, mass, p, t, rho, q]
Arriving(st, m0, mass0, p) ==
  LET f == Fed(st, m0, mass0) m == f.m mass == f.mass p1 == RSub(p, st.drop) v == VaporFraction(m.x, st.t, p1)
      x == IF RLt(v, PureVapor) THEN GasPart(m.x, st.t, p1) ELSE m.x
      g == [m EXCEPT !.x = TLCEval([i \in DOMAIN x |-> RDbl(x[i])])]
      w == IF RLt(v, PureVapor) THEN RDbl(RDiv(RMul(RMul(mass, v), MolarMass(x)), MolarMass(m.x))) ELSE mass
      rho == RDbl(DensityOf(g, st.t, p1))
  IN TLCEval([m |-> g, mass |-> w, p |-> p1, t |-> st.t, rho |-> rho, q |-> RDbl(RDiv(w, rho))])

\* the pressure a head lifts the gas i to (Campbell): average compressibility and heat capacity ratio of inlet and outlet
Lifted(i, head, eff, z, k) ==
  LET e == RDiv(RSub(k, One), RMul(k, eff))
      r == RAdd(One, RDiv(RMul(RMul(head, e), MolarMass(i.m.x)), RMul(RMul(z, GasR), i.t)))
  IN IF RLe(r, Zero) THEN "1/1000" ELSE RDbl(RMul(i.p, RPow(r, RDiv(One, e))))
Half(a, b) == RDiv(RAdd(a, b), "2")
RECURSIVE Settle(_, _, _, _, _)
Settle(i, head, eff, p, n) ==
  IF n = 0 THEN p
  ELSE Settle(i, head, eff, TLCEval(Lifted(i, head, eff, Half(ZOf(i.m, i.p), ZOf(i.m, p)), Half(KappaOf(i.m, i.t, i.p), KappaOf(i.m, i.t, p)))), n - 1)
OutletPressure(i, head, eff) == Settle(i, head, eff, i.p, IF REq(Eos(i.m.eos).fall, Zero) THEN 1 ELSE 12)

\* --- recirculation: none, a share of the room left in the chart, or a mass rate; at least up to the lowest rate -----------------------
Nothing == [kind |-> "none", v |-> Zero]
ShareOf(v) == [kind |-> "share", v |-> v]
MassOf(v) == [kind |-> "mass", v |-> v]
Through(st, i, n, add) ==
  LET lo == LeastAt(st.ch, n) hi == MostAt(st.ch, n)
      more == CASE add.kind = "none" -> i.q
                [] add.kind = "share" -> RAdd(i.q, RMul(add.v, RMax(Zero, RSub(hi, i.q))))
                [] add.kind = "mass" -> RAdd(i.q, RDiv(add.v, i.rho))
  IN RDbl(RMax(more, lo))

\* one stage at speed n: [i, q2, head, eff, flag, valid, p2, over]; over: the rate as a share of the highest
Stage(st, m, mass, p, n, add) ==
  LET i == Arriving(st, m, mass, p) q2 == Through(st, i, n, add)
      o == PointOf(st.ch, n, i.q, q2, FALSE, TRUE)
  IN TLCEval([i |-> i, q2 |-> q2, head |-> o.head, eff |-> o.eff, flag |-> o.flag, valid |-> o.valid,
              p2 |-> OutletPressure(i, RDbl(o.head), RDbl(o.eff)), over |-> RDbl(RDiv(i.q, MostAt(st.ch, n)))])

\* the stages of a train, one after the other
RECURSIVE Along(_, _, _, _, _, _)
Along(sts, m, mass, p, n, add) ==
  IF sts = <<>> THEN <<>>
  ELSE LET s == Stage(Head(sts), m, mass, p, n, add) IN <<s>> \o Along(Tail(sts), s.i.m, s.i.mass, s.p2, n, add)
Outlet(run) == run[Len(run)].p2
\* how far the rates go of what the stages can take (1: to the border)
Room(run) == MaxOf([k \in Dom(run) |-> run[k].over])

Tol == "1/1000"
\* clearly more, clearly less: by more than the program's searches tell apart
Band == "4/1000"
Over(a, b) == RLt(RMul(b, RAdd(One, Band)), a)
Below(a, b) == Over(b, a)
Meets(a, b) == RClose(a, b, "1002/1000000", Zero)
=============================================================================
