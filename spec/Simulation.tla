------------------------------ MODULE Simulation ------------------------------
(* What the process simulations of a model are (S as written):
   S.cols numbers per period of the time series; S.first and S.cnt : the periods of the model among them
   S.defs [name, u] units, S.fluids [name, f], S.streams [name, s] : definitions to refer to; "ref" is "" where something is written in place
   S.pipes [name, units, events] : units [name ("" without), ref, u], events [target, to, ref]
   S.sims [name, targets, cons, dist] : cons [pipe, cs], cs [at ("" : the outlet), p, pc, as]; dist [method, streams, settings]
   S.events [name, type, start, desc] , S.pevents [name, type, ref, desc]
   A number x per period is x.c, times column x.col when there is one. The process is one of units on a line; every section of it (up to where
   a pressure is given) gets what holds the compressors of it within their limits and what brings the pressure to what was given.        *)
EXTENDS Num, Sequences, FiniteSets, Naturals

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
Keep(s, ok(_)) == SelectSeq(s, ok)
Named(s, name) == CHOOSE d \in Range(s) : d.name = name
Has(s, name) == \E d \in Range(s) : d.name = name
Twice(s) == Cardinality(Range(s)) # Len(s)
Periods(S) == S.first .. (S.first + S.cnt - 1)

At(S, x, i) == IF x.col = 0 THEN x.c ELSE RMul(x.c, S.cols[x.col][i])
Values(S, x) == [k \in 1..S.cnt |-> At(S, x, S.first + k - 1)]
Holds(S, c, i) == RLt(c.c, S.cols[c.col][i])
Rate(S, r) == [k \in 1..S.cnt |-> IF \A c \in Range(r.conds) : Holds(S, c, S.first + k - 1) THEN At(S, r.x, S.first + k - 1) ELSE Zero]

Unit(S, it) == IF it.ref = "" THEN it.u ELSE Named(S.defs, it.ref).u
Stream(S, r) == IF r.ref = "" THEN r.s ELSE Named(S.streams, r.ref).s
Fluid(S, r) == IF r.ref = "" THEN r.f ELSE Named(S.fluids, r.ref).f

\* water nitrogen CO2 methane ethane propane i_butane n_butane i_pentane n_pentane n_hexane
Known == [ULTRA_DRY |-> <<"0", "142605179/125000000", "607605069/1000000000", "1898184979/20000000", "310084673/125000000", "63871571/200000000", "154760057/1000000000", "40549569/500000000", "14949111/200000000", "8499919/250000000", "98832441/500000000">>,
          DRY |-> <<"0", "3309/2000", "2099/2500", "893891/10000", "5101/1000", "17083/10000", "2359/5000", "77/200", "231/2000", "793/10000", "2559/10000">>,
          MEDIUM |-> <<"0", "74373/100000", "2415619/1000000", "1712029/20000", "3353913/500000", "2611471/1000000", "45077/100000", "345851/500000", "105357/500000", "197937/1000000", "184393/500000">>,
          RICH |-> <<"0", "682785869/1000000000", "2466921329/1000000000", "7957192993/100000000", "5153816223/1000000000", "9679747581/1000000000", "86424917/125000000", "234866929/200000000", "104195103/500000000", "100926511/500000000", "8440987/50000000">>,
          ULTRA_RICH |-> <<"0", "3433045573/1000000000", "10665529/31250000", "6250752861/100000000", "782473399/50000000", "132202369/10000000", "200762899/125000000", "2479421803/1000000000", "351335073/1000000000", "72776551/250000000", "120457739/1000000000">>]
FluidOf(S, r) == LET f == Fluid(S, r)
                 IN [eos |-> f.eos, comp |-> [j \in 1..11 |-> IF f.gas # "" THEN ConstSeq(Known[f.gas][j], S.cnt) ELSE Values(S, f.comp[j])]]
StreamOf(S, r) == LET s == Stream(S, r) f == FluidOf(S, s.fluid)
                  IN [p |-> Values(S, s.p), t |-> Values(S, s.t), rate |-> Rate(S, s.rate), eos |-> f.eos, comp |-> f.comp]

\* --- sections: the places of the units up to where a pressure is given -----------------------------------------------------------------
Cuts(P, cs) == Keep([k \in DOMAIN P.units |-> k], LAMBDA k : P.units[k].name # "" /\ \E c \in Range(cs) : c.at = P.units[k].name)
Outlets(cs) == Keep(cs, LAMBDA c : c.at = "")
Span(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
Sections(P, cs) ==
  LET cut == Cuts(P, cs) n == Len(P.units)
      From(k) == IF k = 1 THEN 1 ELSE cut[k - 1] + 1
      upto(k) == [con |-> CHOOSE c \in Range(cs) : c.at = P.units[cut[k]].name,
                  at |-> Span(From(k), IF k = Len(cut) /\ Outlets(cs) = <<>> THEN n ELSE cut[k])]
  IN [k \in 1..Len(cut) |-> upto(k)] \o (IF Outlets(cs) = <<>> THEN <<>> ELSE <<[con |-> Outlets(cs)[1], at |-> Span(From(Len(cut) + 1), n)]>>)

Kind(S, P, k) == Unit(S, P.units[k]).kind
Compressors(S, P, at) == Keep(at, LAMBDA k : Kind(S, P, k) = "COMPRESSOR")

\* a unit of the section: what it is and, if it was written, its place in what was written (0 otherwise)
X(kind, k) == [kind |-> kind, k |-> k]
Loop(us) == <<X("DirectMixer", 0)>> \o us \o <<X("DirectSplitter", 0)>>
Class == [COMPRESSOR |-> "Compressor", PRESSURE_DROPPER |-> "PressureDropper", TEMPERATURE_SETTER |-> "TemperatureSetter", LIQUID_REMOVER |-> "LiquidRemover", MIXER |-> "Mixer", SPLITTER |-> "Splitter"]
RECURSIVE Own(_, _, _, _)
\* every compressor has a loop of its own around it and the units ahead of it, from the last compressor, mixer or splitter
Own(S, P, at, wait) ==
  IF at = <<>> THEN wait
  ELSE LET k == Head(at) kind == Kind(S, P, k) u == <<X(Class[kind], k)>>
       IN IF kind \in {"MIXER", "SPLITTER"} THEN wait \o u \o Own(S, P, Tail(at), <<>>)
          ELSE IF kind = "COMPRESSOR" THEN Loop(wait \o u) \o Own(S, P, Tail(at), <<>>)
          ELSE Own(S, P, Tail(at), wait \o u)
Built(S, P, sec) ==
  LET inner == IF sec.con.as = "COMMON_ASV" THEN Loop([k \in DOMAIN sec.at |-> X(Class[Kind(S, P, sec.at[k])], sec.at[k])]) ELSE Own(S, P, sec.at, <<>>)
  IN CASE sec.con.pc = "UPSTREAM_CHOKE" -> <<X("Choke", 0)>> \o inner [] sec.con.pc = "DOWNSTREAM_CHOKE" -> inner \o <<X("Choke", 0)>> [] OTHER -> inner
Whole(S, P, cs) ==
  LET secs == Sections(P, cs)
  IN [j \in DOMAIN secs |-> (IF j = 1 THEN <<X("Inlet", 0)>> ELSE <<>>) \o Built(S, P, secs[j]) \o (IF j = Len(secs) THEN <<X("Outlet", 0)>> ELSE <<>>)]

\* --- what is not accepted ----------------------------------------------------------------------------------------------------------------
Needs == [COMMON_ASV |-> "COMMON_ASV", INDIVIDUAL_ASV_RATE |-> "INDIVIDUAL_ASV", INDIVIDUAL_ASV_PRESSURE |-> "INDIVIDUAL_ASV"]
BadSection(S, P, sec) ==
  \/ Compressors(S, P, sec.at) = <<>>
  \/ sec.con.as = "NO_ASV"
  \/ sec.con.pc \in DOMAIN Needs /\ Needs[sec.con.pc] # sec.con.as
  \/ sec.con.as = "COMMON_ASV" /\ \E k \in Range(sec.at) : Kind(S, P, k) \in {"MIXER", "SPLITTER"}
BadRate(S, r) == \E k \in 1..S.cnt : RLt(Rate(S, r)[k], Zero)
BadFluid(S, r) == r.ref # "" /\ ~Has(S.fluids, r.ref)
BadStream(S, r) == \/ r.ref # "" /\ ~Has(S.streams, r.ref)
                   \/ LET s == Stream(S, r) IN BadFluid(S, s.fluid) \/ BadRate(S, s.rate)
BadUnit(S, it) == \/ it.ref # "" /\ ~Has(S.defs, it.ref)
                  \/ LET u == Unit(S, it) IN CASE u.kind = "MIXER" -> BadStream(S, u.stream) [] u.kind = "SPLITTER" -> BadRate(S, u.rate)
                                               [] u.kind = "COMPRESSOR" -> u.chart.broken [] OTHER -> FALSE
UnitNames(P) == Keep(Map(P.units, LAMBDA u : u.name), LAMBDA x : x # "")
BadEvent(S, P, e) == \/ ~Has(S.pevents, e.ref) \/ ~Has(S.defs, e.to) \/ e.target \notin Range(UnitNames(P))
                     \/ LET u == Named(S.defs, e.to).u IN u.kind # "COMPRESSOR" \/ u.chart.broken
BadPipe(S, P, cs) ==
  \/ \E u \in Range(P.units) : BadUnit(S, u)
  \/ Twice(UnitNames(P))
  \/ cs = <<>> \/ Twice(Map(cs, LAMBDA c : c.at)) \/ \E c \in Range(cs) : c.at # "" /\ c.at \notin Range(UnitNames(P))
  \/ LET cut == Cuts(P, cs) IN Outlets(cs) = <<>> /\ Compressors(S, P, Span(cut[Len(cut)] + 1, Len(P.units))) # <<>>
  \/ \E sec \in Range(Sections(P, cs)) : BadSection(S, P, sec)
  \/ \E e \in Range(P.events) : BadEvent(S, P, e)
ConsOf(m, t) == Cat(Map(Keep(m.cons, LAMBDA c : c.pipe = t), LAMBDA c : c.cs))
BadSim(S, m) ==
  \/ \E t \in Range(m.targets) : ~Has(S.pipes, t)
  \/ \E c \in Range(m.cons) : c.pipe \notin Range(m.targets)
  \/ \E t \in Range(m.targets) : BadPipe(S, Named(S.pipes, t), ConsOf(m, t))
  \/ \E r \in Range(m.dist.streams) : BadStream(S, r)
  \/ \E s \in Range(m.dist.settings) : \E o \in Range(s.over) : {o.from, o.to} \ Range(m.targets) # {}
Refused(S) == \/ Twice(Map(S.events, LAMBDA e : e.name))
              \/ \E e \in Range(S.pevents) : ~Has(S.events, e.ref)
              \/ \E m \in Range(S.sims) : BadSim(S, m)

\* --- what it becomes -----------------------------------------------------------------------------------------------------------------------
\* the first event in the order of S.events with such a process event
When(S, name) == LET has(e) == \E p \in Range(S.pevents) : p.name = name /\ p.ref = e.name IN Keep(S.events, has)[1].start
Events(S) == Map(S.events, LAMBDA e : [name |-> e.name, type |-> e.type, start |-> e.start, desc |-> e.desc,
                pe |-> Map(Keep(S.pevents, LAMBDA p : p.ref = e.name), LAMBDA p : [name |-> p.name, type |-> p.type, desc |-> p.desc])])
HeadIn(unit, h) == CASE unit = "M" -> RMul(h, "981/100") [] unit = "KJ_PER_KG" -> RMul(h, "1000") [] OTHER -> h
Curve(c, k) == [speed |-> c.curves[k].speed, rate |-> c.curves[k].rate, head |-> Map(c.curves[k].head, LAMBDA h : HeadIn(c.hu, h)),
                eff |-> Map(c.curves[k].eff, LAMBDA f : IF c.eu = "PERCENTAGE" THEN RDiv(f, "100") ELSE f)]
Margin(c) == IF c.mu = "PERCENTAGE" THEN RDiv(c.margin, "100") ELSE c.margin
\* the lowest rate of every curve with the margin
Floors(c) == [k \in DOMAIN c.curves |-> LET r == c.curves[k].rate IN RAdd(r[1], RMul(Margin(c), RSub(r[Len(r)], r[1])))]
=============================================================================
