----------------------------- MODULE ModelTrace -----------------------------
(* Checks recorded evaluations of whole models against Model.

   Each event holds the model M, the reported result o and the groups of clauses to decide (want).
   Every clause relates one stage of the evaluation to the RECORDED results of the stages before it, so a
   failing clause names the stage that went wrong.  The verdict is total: an event never blocks.     *)
EXTENDS Model, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Fails(name, ok) == IF ok THEN {} ELSE {name}
N(e) == Len(e.o.tv) - 1
St(e) == Starts(e.o.tv)

(* ---- the reported energy is a calendar-day fuel rate or a stream-day power ---- *)
IsRate(r, rt, unit, n) == r.rt = rt /\ r.unit = unit /\ Len(r.v) = n

Periods(e) ==
  Fails("periods: start, end and every relevant date, once, in order", e.o.tv = ModelTimeVector([e.M EXCEPT !.other = e.o.absent]))
  \cup UNION {Fails("consumer " \o c.name \o " not reported although it has a model in the period",
                      \A i \in 1..N(e) : ~Defined(c.models, St(e)[i])) : c \in Range(e.o.absent)}
  \cup Fails("periods: every component is reported on the same periods", e.o.tvs = <<e.o.tv>>)

SeriesNames(M) == UNION {{M.ts[k].name \o ";" \o M.ts[k].cols[c].name : c \in Dom(M.ts[k].cols)} : k \in Dom(M.ts)}
\* Series are checked on their own grounds; each variable on the recorded values of what it refers to.
SeriesOk(e) ==
  LET env == SeriesEnv(e.M, St(e), Len(e.M.ts))
  IN UNION {Fails("series " \o r, r \in DOMAIN e.o.vars /\ NearSeq(e.o.vars[r], env[r])) : r \in DOMAIN env}
VarsOk(e) ==
  Fails("variables: exactly those of the model",
        DOMAIN e.o.vars = SeriesNames(e.M) \cup {VarName(e.M.vars[k]) : k \in Dom(e.M.vars)})
  \cup UNION {Fails("variable " \o v.name,
                /\ (NeedsOf(v) \cup {VarName(v)}) \subseteq DOMAIN e.o.vars
                /\ NearSeq(e.o.vars[VarName(v)], EvalT(v.def, e.o.vars, St(e), Zero))) : v \in Range(e.M.vars)}

RegOk(e) == UNION {Fails("regularity of " \o e.M.inst[k].name,
                     NearSeq(e.o.inst[k].c.reg, Regularity(e.M.inst[k], e.o.vars, St(e)))) : k \in Dom(e.M.inst)}
HcOk(e) == UNION {Fails("hydrocarbon export of " \o e.M.inst[k].name,
                     LET r == e.o.inst[k].c.hc
                     IN IsRate(r, "CALENDAR_DAY", "STANDARD_CUBIC_METER_PER_DAY", N(e))
                        /\ NearSeq(r.v, HcExport(e.M.inst[k], e.o.vars, St(e)))) : k \in Dom(e.M.inst)}

(* ---- consumers ---- *)
Modelled(c) == \A k \in Dom(c.models) : c.models[k].v.k \in {"direct", "tab"}
FuelConsOk(e, k, j) ==
  LET c == e.M.inst[k].fuelcons[j] o == e.o.inst[k].fuelcons[j] reg == e.o.inst[k].c.reg
      x == Energy(e.M, c, e.o.vars, reg, St(e))
  IN Fails("fuel of " \o c.name,
       /\ IsRate(o.energy, "CALENDAR_DAY", "STANDARD_CUBIC_METER_PER_DAY", N(e))
       /\ Modelled(c) => NearSeq(o.energy.v, MulSeq(x, reg)))
ElConsOk(e, k, g, j) ==
  LET c == e.M.inst[k].gensets[g].cons[j] o == e.o.inst[k].gensets[g].cons[j] reg == e.o.inst[k].c.reg
      x == Energy(e.M, c, e.o.vars, reg, St(e))
  IN Fails("power of " \o c.name,
       /\ IsRate(o.energy, "STREAM_DAY", "MEGA_WATT", N(e))
       /\ IsRate(o.power, "STREAM_DAY", "MEGA_WATT", N(e))
       /\ NearSeq(o.energy.v, o.power.v)
       /\ Modelled(c) => NearSeq(o.energy.v, x))
EnergyOk(e) ==
  UNION {UNION {FuelConsOk(e, k, j) : j \in Dom(e.M.inst[k].fuelcons)} : k \in Dom(e.M.inst)}
  \cup UNION {UNION {UNION {ElConsOk(e, k, g, j) : j \in Dom(e.M.inst[k].gensets[g].cons)} : g \in Dom(e.M.inst[k].gensets)} : k \in Dom(e.M.inst)}
ValidOk(e) ==
  UNION {UNION {LET c == e.M.inst[k].fuelcons[j]
                IN Fails("validity of " \o c.name,
                     Modelled(c) => e.o.inst[k].fuelcons[j].valid = EnergyValid(e.M, c, e.o.vars, e.o.inst[k].c.reg, St(e), FALSE))
                : j \in Dom(e.M.inst[k].fuelcons)} : k \in Dom(e.M.inst)}
  \cup UNION {UNION {UNION {
                LET c == e.M.inst[k].gensets[g].cons[j]
                IN Fails("validity of " \o c.name,
                     Modelled(c) => e.o.inst[k].gensets[g].cons[j].valid = EnergyValid(e.M, c, e.o.vars, e.o.inst[k].c.reg, St(e), TRUE))
                : j \in Dom(e.M.inst[k].gensets[g].cons)} : g \in Dom(e.M.inst[k].gensets)} : k \in Dom(e.M.inst)}

(* ---- generator sets ---- *)
GensetOk(e, k, g) ==
  LET m == e.M.inst[k].gensets[g] o == e.o.inst[k].gensets[g] reg == e.o.inst[k].c.reg n == N(e)
      powers == [j \in Dom(o.cons) |-> o.cons[j].power.v]
  IN Fails("power requirement of " \o m.name,
       IsRate(o.c.power, "STREAM_DAY", "MEGA_WATT", n) /\ NearSeq(o.c.power.v, GensetPower(powers, n)))
     \cup Fails("fuel of generator set " \o m.name,
       IsRate(o.c.energy, "CALENDAR_DAY", "STANDARD_CUBIC_METER_PER_DAY", n)
       /\ NearSeq(o.c.energy.v, MulSeq(GensetFuel(e.M, m, o.c.power.v, St(e)), reg)))
     \cup Fails("capacity margin of " \o m.name,
       IsRate(o.c.margin, "STREAM_DAY", "MEGA_WATT", n) /\ NearSeq(o.c.margin.v, GensetMargin(e.M, m, o.c.power.v, St(e))))
     \cup Fails("validity of generator set " \o m.name, o.c.valid = GensetValid(e.M, m, o.c.power.v, St(e)))
GensetsOk(e) == UNION {UNION {GensetOk(e, k, g) : g \in Dom(e.M.inst[k].gensets)} : k \in Dom(e.M.inst)}

(* ---- emissions ---- *)
EmNames(o) == {o.em[i].name : i \in Dom(o.em)}
EmOf(o, n) == o.em[CHOOSE i \in Dom(o.em) : o.em[i].name = n]
Burner(e, k, x, o) ==
  LET tm == FuelOf(e.M.inst[k], x) st == St(e) names == {Lower(m) : m \in EmissionNames(e.M, tm)}
      now == {Lower(m) : m \in EmissionNames(e.M, [i \in 1..N(e) |-> [t |-> 0, v |-> InForce(tm, st[i])]])}
  IN Fails("emissions of " \o x.name \o ": one per emission of its fuels",
           EmNames(o) \subseteq names /\ ((\A i \in 1..N(e) : Defined(tm, st[i])) => now \subseteq EmNames(o)))
     \cup UNION {Fails("emission " \o nm \o " of " \o x.name,
            nm \in EmNames(o) =>   \* of fuels that apply in the evaluated period
            LET r == EmOf(o, nm).rate
            IN IsRate(r, "CALENDAR_DAY", "TONS_PER_DAY", N(e)) /\ NearSeq(r.v, FuelEmission(e.M, tm, nm, o.energy.v, e.o.vars, st))) : nm \in names}
EmissionsOk(e) ==
  UNION {UNION {Burner(e, k, e.M.inst[k].fuelcons[j], e.o.inst[k].fuelcons[j]) : j \in Dom(e.M.inst[k].fuelcons)} : k \in Dom(e.M.inst)}
  \cup UNION {UNION {Burner(e, k, e.M.inst[k].gensets[g], e.o.inst[k].gensets[g].c) : g \in Dom(e.M.inst[k].gensets)} : k \in Dom(e.M.inst)}
\* Electricity consumers burn nothing themselves.
NoEmOk(e) == UNION {UNION {UNION {
     Fails("electricity consumer without emissions", e.o.inst[k].gensets[g].cons[j].em = <<>>)
       : j \in Dom(e.M.inst[k].gensets[g].cons)} : g \in Dom(e.M.inst[k].gensets)} : k \in Dom(e.M.inst)}
VentOk(e, k, j) ==
  LET v == e.M.inst[k].vents[j] o == e.o.inst[k].vents[j] reg == e.o.inst[k].c.reg
  IN Fails("emissions of emitter " \o v.name \o ": those declared", EmNames(o) = {Lower(v.ems[i].name) : i \in Dom(v.ems)})
     \cup Fails("emitter " \o v.name \o " uses no energy and is valid",
            NearSeq(o.energy.v, ConstSeq(Zero, N(e))) /\ \A i \in Dom(o.valid) : o.valid[i])
     \cup UNION {LET em == v.ems[q]
                 IN Fails("emission " \o em.name \o " of emitter " \o v.name,
                      Lower(em.name) \in EmNames(o) =>
                      LET r == EmOf(o, Lower(em.name)).rate
                      IN IsRate(r, "CALENDAR_DAY", "TONS_PER_DAY", N(e))
                         /\ NearSeq(r.v, [i \in 1..N(e) |-> VentEmission(v, em, e.o.vars, reg, i)])) : q \in Dom(v.ems)}
VentsOk(e) == UNION {UNION {VentOk(e, k, j) : j \in Dom(e.M.inst[k].vents)} : k \in Dom(e.M.inst)}

(* ---- volumes ---- *)
Cal(r) == IF r.rt = "CALENDAR_DAY" THEN r.v ELSE [i \in Dom(r.v) |-> ToCalendar(r.v[i], r.reg[i])]
CumOf(r, c, tv) ==
  IF r.v = <<>> THEN c.v = <<>>
  ELSE /\ Len(c.v) = Len(r.v)
       /\ IF r.unit = "MEGA_WATT" THEN c.unit = "GIGA_WATT_HOURS" /\ NearSeq(c.v, GWh(Cal(r), tv))
          ELSE NearSeq(c.v, CumVolumes(Cal(r), tv))
               /\ (r.unit = "STANDARD_CUBIC_METER_PER_DAY" => c.unit = "STANDARD_CUBIC_METER")
               /\ (r.unit = "TONS_PER_DAY" => c.unit = "TONS")
CompCum(o, tv) ==
  Fails("cumulative energy of " \o o.name, CumOf(o.energy, o.cum, tv))
  \cup Fails("cumulative power of " \o o.name, CumOf(o.power, o.pcum, tv))
  \cup UNION {Fails("cumulative emission " \o o.em[i].name \o " of " \o o.name, CumOf(o.em[i].rate, o.em[i].cum, tv)) : i \in Dom(o.em)}
AggCum(o, tv) == Fails("cumulative electrical power of " \o o.name, CumOf(o.pel, o.pelcum, tv))
                 \cup Fails("cumulative mechanical power of " \o o.name, CumOf(o.pmech, o.pmechcum, tv))
Leaves(oi) == oi.fuelcons \o oi.vents \o [g \in Dom(oi.gensets) |-> oi.gensets[g].c] \o Flatten([g \in Dom(oi.gensets) |-> oi.gensets[g].cons])
CumulativeOk(e) ==
  UNION {CompCum(o, e.o.tv) : o \in {e.o.asset} \cup {e.o.inst[k].c : k \in Dom(e.o.inst)} \cup UNION {Range(Leaves(e.o.inst[k])) : k \in Dom(e.o.inst)}}
  \cup UNION {AggCum(o, e.o.tv) : o \in {e.o.asset} \cup {e.o.inst[k].c : k \in Dom(e.o.inst)}}
\* A power-rate's own regularity is that of its installation.
RegularityCarried(e) ==
  UNION {UNION {Fails("regularity carried by " \o o.name, NearSeq(o.energy.reg, e.o.inst[k].c.reg) /\ (o.power.v = <<>> \/ NearSeq(o.power.reg, e.o.inst[k].c.reg)))
           : o \in Range([j \in Dom(e.o.inst[k].fuelcons) |-> e.o.inst[k].fuelcons[j]]
                         \o [g \in Dom(e.o.inst[k].gensets) |-> e.o.inst[k].gensets[g].c]
                         \o Flatten([g \in Dom(e.o.inst[k].gensets) |-> e.o.inst[k].gensets[g].cons]))} : k \in Dom(e.o.inst)}

(* ---- totals ---- *)
FuelUsers(oi) == oi.fuelcons \o [g \in Dom(oi.gensets) |-> oi.gensets[g].c]
ElUsers(oi) == Flatten([g \in Dom(oi.gensets) |-> oi.gensets[g].cons])
Missing0(s) == MapSeq(NanZero, s)
SumOf(os, F(_), n) == SumSeqs([i \in Dom(os) |-> Missing0(F(os[i]))], n)
EnergyV(o) == o.energy.v
PowerV(o) == o.power.v
Has(o) == o.power.v # <<>>
EmTotal(os, nm, n) == SumSeqs([i \in Dom(os) |-> IF nm \in EmNames(os[i]) THEN Missing0(EmOf(os[i], nm).rate.v) ELSE ConstSeq(Zero, n)], n)
EmissionTotals(label, o, os, n) ==
  LET names == UNION {EmNames(os[i]) : i \in Dom(os)}
  IN Fails("emissions of " \o label \o ": those of its parts", EmNames(o) = names)
     \cup UNION {Fails("total emission " \o nm \o " of " \o label,
                       nm \in EmNames(o) => IsRate(EmOf(o, nm).rate, "CALENDAR_DAY", "TONS_PER_DAY", n)
                                            /\ NearSeq(Missing0(EmOf(o, nm).rate.v), EmTotal(os, nm, n))) : nm \in names}
AllValid(o, os) == \A i \in Dom(o.valid) : o.valid[i] = (\A j \in Dom(os) : os[j].valid[i])
Mech(oi) == SelectSeq(oi.fuelcons, Has)
InstTotal(e, k) ==
  LET oi == e.o.inst[k] c == oi.c n == N(e) nm == c.name parts == FuelUsers(oi) \o oi.vents
      el == SumOf(ElUsers(oi), PowerV, n) mech == SumOf(Mech(oi), PowerV, n)
  IN Fails("fuel total of " \o nm, IsRate(c.energy, "CALENDAR_DAY", "STANDARD_CUBIC_METER_PER_DAY", n)
                                   /\ NearSeq(Missing0(c.energy.v), SumOf(FuelUsers(oi), EnergyV, n)))
     \cup Fails("electrical power total of " \o nm,
            IF ElUsers(oi) = <<>> THEN c.pel.v = <<>> \/ NearSeq(c.pel.v, ConstSeq(Zero, n))
            ELSE IsRate(c.pel, "STREAM_DAY", "MEGA_WATT", n) /\ NearSeq(Missing0(c.pel.v), el))
     \cup Fails("mechanical power total of " \o nm,
            IF Mech(oi) = <<>> THEN c.pmech.v = <<>> \/ NearSeq(c.pmech.v, ConstSeq(Zero, n))
            ELSE IsRate(c.pmech, "STREAM_DAY", "MEGA_WATT", n) /\ NearSeq(Missing0(c.pmech.v), mech))
     \cup Fails("power total of " \o nm,
            IF c.power.v = <<>> THEN ElUsers(oi) = <<>> /\ Mech(oi) = <<>> ELSE NearSeq(Missing0(c.power.v), AddSeq(el, mech)))
     \cup EmissionTotals(nm, c, parts, n)
     \cup Fails("validity of " \o nm, AllValid(c, Leaves(oi)))
InstsOk(e) == UNION {InstTotal(e, k) : k \in Dom(e.o.inst)}
OptV(s, n) == IF s = <<>> THEN ConstSeq(Zero, n) ELSE Missing0(s)
AssetOk(e) ==
  LET a == e.o.asset n == N(e) ins == [k \in Dom(e.o.inst) |-> e.o.inst[k].c]
  IN Fails("fuel total of the asset", IsRate(a.energy, "CALENDAR_DAY", "STANDARD_CUBIC_METER_PER_DAY", n)
                                      /\ NearSeq(Missing0(a.energy.v), SumOf(ins, EnergyV, n)))
     \cup Fails("hydrocarbon export of the asset", IsRate(a.hc, "CALENDAR_DAY", "STANDARD_CUBIC_METER_PER_DAY", n)
                 /\ NearSeq(a.hc.v, SumSeqs([k \in Dom(ins) |-> ins[k].hc.v], n)))
     \cup Fails("power totals of the asset",
            /\ NearSeq(OptV(a.power.v, n), SumSeqs([k \in Dom(ins) |-> OptV(ins[k].power.v, n)], n))
            /\ NearSeq(OptV(a.pel.v, n), SumSeqs([k \in Dom(ins) |-> OptV(ins[k].pel.v, n)], n))
            /\ NearSeq(OptV(a.pmech.v, n), SumSeqs([k \in Dom(ins) |-> OptV(ins[k].pmech.v, n)], n)))
     \cup Fails("cumulative totals of the asset",
            /\ NearSeq(a.cum.v, SumSeqs([k \in Dom(ins) |-> ins[k].cum.v], n))
            /\ NearSeq(OptV(a.pcum.v, n), SumSeqs([k \in Dom(ins) |-> OptV(ins[k].pcum.v, n)], n)))
     \cup EmissionTotals("the asset", a, ins, n)
     \cup Fails("validity of the asset", AllValid(a, ins))

Verdict(e) ==
  LET w == Range(e.want) G(g, s) == IF g \in w THEN s ELSE {}
  IN G("periods", Periods(e)) \cup G("series", SeriesOk(e)) \cup G("vars", VarsOk(e)) \cup G("reg", RegOk(e)) \cup G("hc", HcOk(e))
     \cup G("energy", EnergyOk(e)) \cup G("valid", ValidOk(e)) \cup G("genset", GensetsOk(e))
     \cup G("emissions", EmissionsOk(e) \cup NoEmOk(e)) \cup G("vents", VentsOk(e))
     \cup G("cumulative", CumulativeOk(e) \cup RegularityCarried(e)) \cup G("total", InstsOk(e) \cup AssetOk(e))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
