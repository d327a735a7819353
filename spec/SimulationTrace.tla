--------------------------- MODULE SimulationTrace ---------------------------
(* What the process simulations of a model became: e.S as written, e.refused, and unless it was refused
   e.events; e.alone : whether all units everywhere are different ones; e.days : the dates of the periods as numbers of the columns;
   e.sims [name, pipes, dist] : per target [name, units (classes), lens (of its sections), links (pairs of places), charts (per place), ev, hand, probs, conf] *)
EXTENDS Simulation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
SameSeqs(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : NearSeq(a[k], b[k])
SameStream(o, w) == NearSeq(o.p, w.p) /\ NearSeq(o.t, w.t) /\ NearSeq(o.rate, w.rate) /\ o.eos = w.eos /\ SameSeqs(o.comp, w.comp)
SameCurve(o, w) == Near(o.speed, w.speed) /\ NearSeq(o.rate, w.rate) /\ NearSeq(o.head, w.head) /\ NearSeq(o.eff, w.eff)
SameChart(o, c) == /\ Len(o.curves) = Len(c.curves) /\ \A k \in DOMAIN o.curves : SameCurve(o.curves[k], Curve(c, k))
                   /\ NearSeq(o.floors, Floors(c))

Place(flat, k) == CHOOSE j \in DOMAIN flat : flat[j].k = k
PipeOk(S, P, cs, o) ==
  LET whole == Whole(S, P, cs)
      flat == Cat(whole)
      secs == Sections(P, cs)
      lens == Map(whole, Len)
      Before(j) == LET RECURSIVE sum(_) sum(i) == IF i = 0 THEN 0 ELSE sum(i - 1) + lens[i] IN sum(j - 1)
      places(j, kind) == Keep(Span(Before(j) + 1, Before(j) + lens[j]), LAMBDA p : flat[p].kind = kind)
      loops(j) == LET a == places(j, "DirectMixer") b == places(j, "DirectSplitter") IN [i \in DOMAIN a |-> [kind |-> "loop", at |-> <<a[i], b[i]>>]]
      chokes(j) == Map(places(j, "Choke"), LAMBDA p : [kind |-> "choke", at |-> <<p>>])
      shaft == [kind |-> "shaft", at |-> Keep(Span(1, Len(flat)), LAMBDA p : flat[p].kind = "Compressor")]
      target(j) == IF j = Len(secs) THEN Len(flat) - 1 ELSE Before(j) + lens[j]
      U(p) == Unit(S, P.units[flat[p].k])
      ConfOk(c) == LET u == U(c.at) IN CASE c.kind = "PRESSURE_DROPPER" -> u.kind = c.kind /\ NearSeq(c.v, Values(S, u.x))
                                         [] c.kind = "TEMPERATURE_SETTER" -> u.kind = c.kind /\ NearSeq(c.v, Values(S, u.x))
                                         [] c.kind = "SPLITTER" -> u.kind = c.kind /\ NearSeq(c.v, Rate(S, u.rate))
                                         [] c.kind = "MIXER" -> u.kind = c.kind /\ SameStream(c.v, StreamOf(S, u.stream))
      EvOk(i) == LET e == P.events[i] v == o.ev[i]
                 IN v.action = "CHANGE" /\ v.type = "REBUNDLE" /\ v.when = When(S, e.ref) /\ SameChart(v.chart, Named(S.defs, e.to).u.chart)
                    /\ v.at = Place(flat, CHOOSE k \in DOMAIN P.units : P.units[k].name = e.target)
  IN Fails("name of a pipeline", o.name = P.name)
     \cup (IF o.units # Map(flat, LAMBDA x : x.kind) THEN {"units of a pipeline"} ELSE
          Fails("sections", o.lens = lens)
          \cup Fails("connections", o.links = [k \in 1..(Len(flat) - 1) |-> <<k, k + 1>>])
          \cup Fails("charts", \A p \in DOMAIN flat : IF flat[p].kind # "Compressor" THEN o.charts[p].curves = <<>> ELSE SameChart(o.charts[p], U(p).chart))
          \cup Fails("shaft, loops and chokes", o.hand = <<shaft>> \o Cat([j \in DOMAIN secs |-> loops(j) \o chokes(j)]))
          \cup Fails("pressures", Len(o.probs) = Len(secs) /\ \A j \in DOMAIN secs :
                 LET b == o.probs[j] c == secs[j].con IN b.sec = j /\ b.pc = c.pc /\ b.as = c.as /\ NearSeq(b.p, Values(S, c.p)))
          \cup Fails("where the pressures are", \A j \in DOMAIN o.probs : o.probs[j].at = target(j) /\ o.probs[j].link = target(j))
          \cup Fails("inputs of units", {c.at : c \in Range(o.conf)} = {p \in DOMAIN flat : flat[p].kind \in {"PressureDropper", "TemperatureSetter", "Mixer", "Splitter"}}
                                        /\ \A c \in Range(o.conf) : ConfOk(c))
          \cup Fails("changes over time", Len(o.ev) = Len(P.events) /\ \A i \in DOMAIN o.ev : EvOk(i)))
DistOk(S, m, o) ==
  LET d == m.dist no(name) == CHOOSE k \in DOMAIN m.targets : m.targets[k] = name
  IN /\ o.method = d.method /\ Len(o.streams) = Len(d.streams) /\ \A k \in DOMAIN d.streams : SameStream(o.streams[k], StreamOf(S, d.streams[k]))
     /\ Len(o.settings) = Len(d.settings)
     /\ \A k \in DOMAIN d.settings : /\ SameSeqs(o.settings[k].fr, Map(d.settings[k].fr, LAMBDA x : Values(S, x)))
                                     /\ o.settings[k].over = Map(d.settings[k].over, LAMBDA w : <<no(w.from), no(w.to)>>)
Verdict(e) ==
  LET S == e.S
  IN IF Refused(S) \/ e.refused THEN Fails("accepted or refused", Refused(S) = e.refused)
     ELSE Fails("events", e.events = Events(S))
          \cup Fails("every unit is its own", e.alone)
          \cup Fails("periods", e.days = [k \in 1..(S.cnt + 1) |-> S.first + k - 1])
          \cup Fails("simulations", Map(e.sims, LAMBDA m : m.name) = Map(S.sims, LAMBDA m : m.name))
          \cup UNION {LET m == S.sims[k] o == e.sims[k]
                      IN Fails("distribution of streams", DistOk(S, m, o.dist))
                         \cup (IF Len(o.pipes) # Len(m.targets) THEN {"targets"}
                               ELSE UNION {PipeOk(S, Named(S.pipes, m.targets[j]), ConsOf(m, m.targets[j]), o.pipes[j]) : j \in DOMAIN m.targets}) : k \in 1..Len(e.sims)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
