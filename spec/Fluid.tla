------------------------------- MODULE Fluid -------------------------------
(* Fluids: what the thermodynamic engine (the stand-in of vf/engine.py) answers for a composition in a state, and what the
   program makes of it.  A composition is the sequence of the amounts of the components in the order of Mass; a fluid model
   m = [x, eos]; temperatures in kelvin, pressures in bara, enthalpies in J/kg, densities in kg/m3, rates in Sm3/d and kg/h. *)
EXTENDS Num, Integers, Sequences, FiniteSets

Mass == <<"1801534/100000000", "2801340/100000000", "4400995/100000000", "1604246/100000000", "3006904/100000000", "4409562/100000000",
          "5812220/100000000", "5812220/100000000", "7214878/100000000", "7214878/100000000", "8617536/100000000">>
HeatCapacity == <<"34", "29", "37", "36", "53", "74", "97", "99", "119", "120", "143">>
Water == 1
GasR == "83144621/10000000"
StdT == "28815/100"
StdP == "101325/100000"
PureVapor == "9999/10000"

\* compressibility at zero pressure, its fall per bar, enthalpy offset (J/mol), enthalpy per bar (J/mol), extra heat capacity,
\* extra heat capacity per bar as far as the heat capacity ratio goes
Eos(eos) == CASE eos = "SRK" -> [z |-> "1", fall |-> Zero, off |-> Zero, per |-> Zero, extra |-> Zero, grow |-> Zero]
              [] eos = "PR" -> [z |-> "15/16", fall |-> "1/2048", off |-> "1000", per |-> "-2", extra |-> Zero, grow |-> "1/32"]
              [] eos = "GERG_SRK" -> [z |-> "7/8", fall |-> Zero, off |-> "2000", per |-> Zero, extra |-> One, grow |-> Zero]
              [] eos = "GERG_PR" -> [z |-> "13/16", fall |-> Zero, off |-> "3000", per |-> Zero, extra |-> One, grow |-> Zero]
IsGerg(eos) == eos \in {"GERG_SRK", "GERG_PR"}

Dot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
Norm(x) == LET s == RSum(x) IN TLCEval([i \in 1..Len(x) |-> RDiv(x[i], s)])
MolarMass(x) == RDiv(Dot(x, Mass), RSum(x))
Cp(x) == RDiv(Dot(x, HeatCapacity), RSum(x))

\* water in the gas, and the gas that is left when the rest of it condenses
Capacity(t, p) == RMin(One, RDiv(RMax("1/1000", RDiv(RSub(t, "270"), "1000")), p))
WaterOf(x) == RDiv(x[Water], RSum(x))
VaporFraction(x, t, p) == LET w == WaterOf(x) y == Capacity(t, p) IN IF RLe(w, y) THEN One ELSE RDiv(RSub(One, w), RSub(One, y))
GasPart(x, t, p) ==
  LET n == Norm(x) w == n[Water] y == Capacity(t, p)
  IN IF RLe(w, y) THEN n ELSE TLCEval([i \in 1..Len(n) |-> IF i = Water THEN y ELSE RMul(n[i], RDiv(RSub(One, y), RSub(One, w)))])

ZOf(m, p) == LET e == Eos(m.eos) IN RMax("1/4", RSub(e.z, RMul(e.fall, p)))
\* the fluid the engine's properties are those of: GERG describes the gas phase alone
Seen(m, t, p) == IF IsGerg(m.eos) THEN GasPart(m.x, t, p) ELSE m.x
EnthalpyOf(m, t, p) ==
  LET e == Eos(m.eos) x == Seen(m, t, p)
  IN RDiv(RAdd(RAdd(RMul(RAdd(Cp(x), e.extra), t), e.off), RMul(e.per, p)), MolarMass(x))
\* the temperature at which a (gas) fluid has the enthalpy h
TemperatureAt(m, h, p) ==
  LET e == Eos(m.eos)
  IN RDiv(RSub(RSub(RMul(h, MolarMass(m.x)), e.off), RMul(e.per, p)), RAdd(Cp(m.x), e.extra))
DensityOf(m, t, p) ==
  LET x == Seen(m, t, p) v == IF IsGerg(m.eos) THEN One ELSE VaporFraction(m.x, t, p)
  IN RDiv(RMul(RMul("100000", p), MolarMass(x)), RMul(RMul(ZOf(m, p), GasR), RMul(t, v)))
KappaOf(m, t, p) == LET e == Eos(m.eos) c == RAdd(RAdd(Cp(Seen(m, t, p)), e.extra), RMul(e.grow, p)) IN RDiv(c, RSub(c, GasR))

\* The density a standard cubic meter has: that of the gas alone.
StandardDensity(m) ==
  LET g == [m EXCEPT !.x = IF RGe(VaporFraction(m.x, StdT, StdP), PureVapor) THEN m.x ELSE GasPart(m.x, StdT, StdP)]
  IN DensityOf(g, StdT, StdP)

PropertiesOf(m, t, p) ==
  <<t, p, DensityOf(m, t, p), EnthalpyOf(m, t, p), ZOf(m, p), KappaOf(m, t, p), VaporFraction(m.x, t, p), MolarMass(m.x), StandardDensity(m)>>
AtEnthalpy(m, h, p) == PropertiesOf(m, TemperatureAt(m, h, p), p)

MassRate(m, sm3) == RDiv(RMul(sm3, StandardDensity(m)), "24")
StandardRate(m, kg) == RDiv(RMul(kg, "24"), StandardDensity(m))

Fine == "1/100000000"
Same(a, b) == RClose(a, b, Fine, "1/1000000000000")
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Same(s[i], t[i])
SameModel(a, b) == a.eos = b.eos /\ SameSeq(Norm(a.x), Norm(b.x))
=============================================================================
