----------------------------- MODULE ChartTrace -----------------------------
(* Recorded compressor charts: one event per chart.
   e = [curves, margin, adj, points, caps, effs, most, lims] : the curves as given, the margin to surge, and what the chart
   answered: its curves, the operating points of speeds and rates, the capacity at rates and heads, the efficiency there, the
   highest rate of heads and the range of rates of speeds                                                                       *)
EXTENDS Chart, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Nearly(a, b) == a = b \/ Near(a, b)
\* does a flag tell whether a < b (either, where doubles do not tell them apart)
Tells(flag, a, b) == flag = RLt(a, b) \/ (Near(a, b))
CurveOk(c, d) == Near(c.n, d.n) /\ NearSeq(c.r, d.r) /\ NearSeq(c.h, d.h) /\ NearSeq(c.e, d.e)
PointFails(ch, p) ==
  LET o == PointOf(ch, p.s, p.r0, p.r, p.up, p.asv)
  IN Fails("head at speed and rate", Nearly(p.head, o.head)) \cup Fails("efficiency at speed and rate", Nearly(p.eff, o.eff))
     \cup Fails("place in the chart", p.flag = o.flag) \cup Fails("inside the chart", p.valid = o.valid)
CapFails(ch, p) ==
  LET o == CapacityOf(ch, p.r, p.h, p.choke)
  IN Fails("recirculated rate", Near(p.asv, o.q)) \cup Fails("choked head", Near(p.head, o.g))
     \cup Fails("recirculates", Tells(p.recirc, p.r, o.lo))
     \cup Fails("choked", IF p.choke THEN Tells(p.choked, p.h, o.low) ELSE ~p.choked)
     \cup Fails("rate above the maximum", Tells(p.rex, o.hi, o.q))
     \cup Fails("head above the maximum", Tells(p.hex, o.top, o.g))
     \cup Fails("capacity", p.over = (p.rex \/ p.hex \/ (~p.choke /\ RLt(p.h, o.low))) \/ (~p.choke /\ Near(p.h, o.low)))
Verdict(e) ==
  LET ch == CompressorChart(e.curves, e.margin)
  IN Fails("curves", Len(e.adj) = Len(ch) /\ \A k \in Dom(ch) : CurveOk(ch[k], e.adj[k]))
     \cup UNION {PointFails(ch, e.points[k]) : k \in Dom(e.points)}
     \cup UNION {CapFails(ch, e.caps[k]) : k \in Dom(e.caps)}
     \cup UNION {Fails("efficiency at rate and head", \E f \in Efficiencies(ch, e.effs[k].r, e.effs[k].h) : Near(f, e.effs[k].e)) : k \in Dom(e.effs)}
     \cup UNION {Fails("highest rate of a head", Near(e.most[k].out, WallAt(ch, e.most[k].h, e.most[k].choke))) : k \in Dom(e.most)}
     \cup UNION {Fails("rates of a speed", Near(e.lims[k].lo, LeastAt(ch, e.lims[k].s)) /\ Near(e.lims[k].hi, MostAt(ch, e.lims[k].s))) : k \in Dom(e.lims)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
