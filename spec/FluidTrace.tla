----------------------------- MODULE FluidTrace -----------------------------
(* Recorded histories of the fluid service (e.e = "service"), of a memory on its own ("cache") and of two threads using one ("race"). *)
EXTENDS Fluid, FluidService, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}

Statistics(c) ==
  LET n == c.hits + c.misses
  IN <<RInt(c.hits), RInt(c.misses), RInt(c.evictions), RInt(Len(c.held)), RInt(c.max), IF n = 0 THEN Zero ELSE RDiv(RInt(100 * c.hits), RInt(n))>>
StatisticsOk(c, v) ==
  Len(v) = 6 /\ LET w == Statistics(c) IN (\A i \in 1..5 : v[i] = w[i]) /\ RClose(v[6], w[6], Zero, "51/1000")

------------------------------------------------------------------------------
(* the memory *)
CacheStep(c, o) == \* c after o, and whether o answered what it should
  CASE o.o = "get" -> [c |-> Looked(c, o.key), ok |-> o.v = IF Holds(c, o.key) THEN <<RInt(ValueAt(c, o.key))>> ELSE <<>>]
    [] o.o = "put" -> [c |-> Remembered(c, o.key, o.val), ok |-> o.v = <<>>]
    [] o.o \in {"clear", "clear all"} -> [c |-> Emptied(c), ok |-> o.v = <<>>]
    [] o.o = "len" -> [c |-> c, ok |-> o.v = <<RInt(Len(c.held))>>]
    [] o.o = "stats" -> [c |-> c, ok |-> StatisticsOk(c, o.v)]
    [] o.o = "nothing" -> [c |-> c, ok |-> TRUE]
RECURSIVE CacheHistory(_, _, _)
CacheHistory(c, ops, i) ==
  IF i > Len(ops) THEN {}
  ELSE LET o == ops[i] a == CacheStep(c[o.name], o)
           c2 == TLCEval(IF o.o = "clear all" THEN [x \in DOMAIN c |-> Emptied(c[x])] ELSE [c EXCEPT ![o.name] = a.c])
       IN Fails("memory: " \o o.o, a.ok) \cup Fails("one memory per name", o.k = "ok") \cup CacheHistory(c2, ops, i + 1)

RECURSIVE Filled(_, _)
Filled(c, ks) == IF ks = <<>> THEN c ELSE Filled(Remembered(c, Head(ks), Head(ks) * 10), Tail(ks))
\* Two threads: what both saw is explained by one going before the other.
RaceOk(e) ==
  LET c0 == Filled(EmptyCache(e.max), e.held)
      Order(x, y) == LET p == CacheStep(c0, x) r == CacheStep(p.c, y) IN p.ok /\ r.ok /\ StatisticsOk(r.c, e.end)
  IN Order(e.a, e.b) \/ Order(e.b, e.a)

------------------------------------------------------------------------------
(* the service *)
ModelKey(e, i) == CHOOSE j \in 1..i : SameModel(e.models[i], e.models[j]) /\ \A k \in 1..(j - 1) : ~SameModel(e.models[i], e.models[k])
KeyOf(e, o) == <<o.f, ModelKey(e, o.m), o.p, o.t>>
Right(e, o) == IF o.f = "PT" THEN PropertiesOf(e.models[o.m], o.t, o.p) ELSE AtEnthalpy(e.models[o.m], o.t, o.p)
Fault(o) == o.fault = "raise" \/ (o.fault = "wrong" /\ o.f = "PH")

\* Operations that need the engine but are not remembered as flashes (rates) may be answered from the reference fluids.
RateRight(e, o) == IF o.f = "mass" THEN MassRate(e.models[o.m], o.p) ELSE StandardRate(e.models[o.m], o.p)
StreamRight(e, o, p) ==
  LET m == e.models[o.m]
      kg == IF o.f = "standard" THEN MassRate(m, o.r) ELSE o.r
  IN <<kg, IF o.f = "standard" THEN o.r ELSE StandardRate(m, o.r), RDiv(kg, p[3])>> \o p
DryRight(e, o) ==
  LET m == e.models[o.m] wet == RLt(VaporFraction(m.x, o.t, o.p), PureVapor)
      g == IF wet THEN [m EXCEPT !.x = GasPart(m.x, o.t, o.p)] ELSE m
  IN [p |-> PropertiesOf(g, o.t, o.p), x |-> Norm(g.x)]

Answered(s, k, ok) == [s |-> s, f |-> Fails(k, ok)]
Step(e, s, o) ==
  CASE o.o = "start" -> LET a == Initialize(s, o.kind)
                        IN Answered(a.s, "starting the engine", o.k = a.k /\ (o.k = "ok" => o.v = IF a.s.gen # s.gen /\ o.kind = "py4j" THEN <<a.s.mem>> ELSE <<>>))
    [] o.o = "stop" -> LET a == Shutdown(s) IN Answered(a.s, "shutting down", o.k = a.k)
    [] o.o \in {"leave", "crashed"} -> LET a == Leave(s) IN Answered(a.s, "leaving the engine", o.k = a.k)
    [] o.o = "engine" -> LET a == ConfigureEngine(s, o.mem, o.exit, o.valid) IN Answered(a.s, "configuring the engine", o.k = a.k)
    [] o.o = "engine reset" -> Answered(ResetEngine(s).s, "configuring the engine", o.k = "ok")
    [] o.o = "sizes" -> LET a == ConfigureSizes(s, o.ref, o.n) IN Answered(a.s, "configuring the memory", o.k = a.k)
    [] o.o = "reset" -> Answered(Reset(s).s, "reset", o.k = "ok")
    [] o.o = "clear" -> Answered(Forget(s), "clear", o.k = "ok")
    [] o.o = "stats" ->
         Answered(s, "statistics", o.k = "ok" /\ IF s.memory = <<>> THEN o.v = <<>>
                                                 ELSE StatisticsOk(s.memory[1], o.v) /\ o.ref >= 0 /\ o.ref <= o.n)
    [] o.o = "flash" -> LET a == Flash(s, KeyOf(e, o), Fault(o))
                        IN Answered(a.s, o.f \o " flash", o.k = a.k /\ (a.k = "ok" => SameSeq(o.v, Right(e, o))))
    [] o.o = "rate" -> LET t == Instance(s)
                       IN Answered(t, "rate", IF s.kind = "none" THEN o.k \in {"ok", "ProgrammingError"} /\ (o.k = "ok" => SameSeq(o.v, <<RateRight(e, o)>>))
                                              ELSE o.k = "ok" /\ SameSeq(o.v, <<RateRight(e, o)>>))
    [] o.o = "stream" -> LET a == Flash(s, <<"PT", ModelKey(e, o.m), o.p, o.t>>, FALSE)
                         IN Answered(a.s, "stream", o.k = a.k /\ (a.k = "ok" => SameSeq(o.v, StreamRight(e, o, PropertiesOf(e.models[o.m], o.t, o.p)))))
    [] o.o = "dry" -> LET a == Flash(s, <<"PT", ModelKey(e, o.m), o.p, o.t>>, FALSE) r == DryRight(e, o)
                      IN Answered(a.s, "liquid removed", o.k = a.k /\ (a.k = "ok" => /\ Len(o.v) = 20
                                                                                      /\ SameSeq(SubSeq(o.v, 1, 9), r.p)
                                                                                      /\ SameSeq(Norm(SubSeq(o.v, 10, 20)), r.x)))
RECURSIVE History(_, _, _)
History(e, s, i) ==
  IF i > Len(e.ops) THEN {}
  ELSE LET a == TLCEval(Step(e, s, e.ops[i]))
           alive == IF a.s.kind = "py4j" THEN 1 ELSE 0
       IN a.f \cup Fails("no engine but the one in use is left running", e.ops[i].running = alive) \cup History(e, a.s, i + 1)

Verdict(e) == CASE e.e = "cache" -> CacheHistory([x \in Range(e.names) |-> EmptyCache(e.max)], e.ops, 1)
                [] e.e = "race" -> Fails("threads", RaceOk(e))
                [] e.e = "service" -> History(e, Start, 1)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
