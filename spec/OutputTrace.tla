---------------------------- MODULE OutputTrace ----------------------------
(* Recorded runs of the command line: arguments a, the files written and, from the same evaluation through the programming
   interface, the results they must show. *)
EXTENDS Output, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}

TableOk(name, t, C, starts, fmt) ==
  Fails(name \o ": columns", t.head = <<"timesteps">> \o [j \in Dom(C) |-> Heading(C[j])])
  \cup Fails(name \o ": dates", t.stamps = [i \in Dom(starts) |-> DateText(starts[i], fmt)])
  \cup IF Len(t.rows) # Len(starts) \/ (\E i \in Dom(t.rows) : Len(t.rows[i]) # Len(C)) THEN {name \o ": shape"}
       ELSE UNION {Fails(name \o ": values of " \o Heading(C[j]),
                         C[j].s = starts /\ \A i \in Dom(starts) : InTable(t.rows[i][j], C[j].v[i])) : j \in Dom(C)}

LeafOk(g, w, fmt) ==
  CASE w.k = "n" -> g.k = "n" /\ InJson(g.v, w.v)
    [] w.k = "d" -> g.k = "s" /\ g.v = DateText(w.t, fmt)
    [] OTHER -> g = w
JsonOk(name, d, fmt) ==
  Fails(name \o ": everything once and nothing else", DOMAIN d.got = DOMAIN d.want)
  \cup LET bad == {p \in DOMAIN d.got \cap DOMAIN d.want : ~LeafOk(d.got[p], d.want[p], fmt)}
       IN IF bad = {} THEN {} ELSE {name \o ": value at " \o (CHOOSE p \in bad : TRUE)}

PeriodsOk(ps, tv, fmt) == Len(ps) = Len(tv) - 1 /\ \A i \in Dom(ps) : ps[i].s = DateText(tv[i], fmt) /\ ps[i].e = DateText(tv[i + 1], fmt)
JsonSeq(g, w) == Len(g) = Len(w) /\ \A i \in Dom(w) : InJson(g[i], w[i])
SimpleOk(d, cs, fmt) ==
  Fails("simple results: periods", PeriodsOk(d.periods, cs[1].tv, fmt))
  \cup Fails("simple results: components", [k \in Dom(d.components) |-> d.components[k].name] = [k \in Dom(cs) |-> cs[k].name])
  \cup IF Len(d.components) # Len(cs) THEN {} ELSE
       UNION {LET g == d.components[k] w == cs[k]
              IN Fails("simple result of " \o w.name,
                   /\ g.kind = w.kind /\ g.level = w.level /\ g.parent = w.parent /\ PeriodsOk(g.periods, w.tv, fmt)
                   /\ g.unit = w.unit /\ JsonSeq(g.energy, w.energy) /\ JsonSeq(g.power, w.power)
                   /\ g.valid = [i \in Dom(w.valid) |-> IF w.valid[i] THEN "1" ELSE "0"]
                   /\ Len(g.em) = Len(w.em)
                   /\ \A i \in Dom(w.em) : g.em[i].key = w.em[i].name /\ g.em[i].name = w.em[i].name /\ JsonSeq(g.em[i].rate, w.em[i].rate)) : k \in Dom(cs)}

Asked(given, default) == IF given < 0 THEN default ELSE given
CacheOk(e) == Fails("size of the reference fluid cache", e.gr = Asked(e.r, e.dr)) \cup Fails("size of the flash cache", e.gf = Asked(e.f, e.df))
RunOk(e) ==
  LET a == e.a IN
  Fails("exit status", e.exit = 0)
  \cup Fails("files written", Range(e.files) = Files(a, e.name, e.insts) /\ Len(e.files) = Cardinality(Range(e.files)))
  \cup Fails("the Java process started is stopped", e.java.starts = 1 /\ e.java.stops = 1)
  \cup (IF e.csv = <<>> THEN {} ELSE TableOk("csv", e.csv[1], e.cols, e.starts, a.fmt))
  \cup (IF e.icsv = <<>> THEN {} ELSE TableOk("intensity csv", e.icsv[1], e.icols, e.starts, a.fmt))
  \cup (IF e.json = <<>> THEN {} ELSE JsonOk("json", e.json[1], a.fmt))
  \cup (IF e.ijson = <<>> THEN {} ELSE JsonOk("intensity json", e.ijson[1], a.fmt))
  \cup (IF e.simple = <<>> THEN {} ELSE SimpleOk(e.simple[1], e.comps, a.fmt))
  \cup (IF e.info = <<>> THEN {} ELSE Fails("run information", e.info[1].ordered /\ Range(e.info[1].has) = {"version", "start", "end"}))

Verdict(e) == IF "cache" \in DOMAIN e THEN CacheOk(e) ELSE RunOk(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
