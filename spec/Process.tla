------------------------------ MODULE Process ------------------------------
(* A process pipeline: units one after the other, each making a stream of a stream, and the handles that control them: the speed of
   a shaft, recirculation loops, a choke.

   A stream s = [x, p, t, mass, rho, sm] with eos the equation of state of the whole; a unit u = [k, v, ...] by its kind k:
   drop, choke (v: bar taken off), cool (v: kelvin), scrub, in, out of a recirculation loop (v: Sm3/d), mix (what comes in), split
   (v: Sm3/d taken out), comp (st: its stage).                                                                                *)
EXTENDS TrainRun

Gas(s, eos) == [x |-> s.x, eos |-> eos]
\* what the stream says of itself hangs together
WellFormed(s, eos) ==
  Fails("density of a stream", Fits(s.rho, DensityOf(Gas(s, eos), s.t, s.p))) \cup Fails("standard rate of a stream", Fits(s.sm, StandardRate(Gas(s, eos), s.mass)))
  \cup Fails("a stream has mass", RLe(Zero, s.mass) /\ RLt(Zero, s.p))
KeepsGas(a, b) == SameSeq(Norm(a.x), Norm(b.x))
Keeps(a, b) == KeepsGas(a, b) /\ Fits(a.mass, b.mass)
Wet(s, eos) == RLt(VaporFraction(s.x, s.t, s.p), PureVapor)
Flow(s) == RDiv(s.mass, s.rho)

\* what a unit can not do with a stream: a set of reasons
Cannot(u, a, eos, ch, n) ==
  CASE u.k \in {"drop", "choke"} -> IF RLt(a.p, u.v) THEN {"inletp"} ELSE {}
    [] u.k = "split" -> IF RLt(a.sm, u.v) THEN {"offtake"} ELSE {}
    [] u.k = "comp" -> IF Wet(a, eos) THEN {"liquid"} ELSE IF RLt(Flow(a), LeastAt(ch, n)) THEN {"surge"} ELSE IF RLt(MostAt(ch, n), Flow(a)) THEN {"stonewall"} ELSE {}
    [] OTHER -> {}
\* what it makes of it
UnitFails(u, a, b, eos, ch, n) ==
  LET g == Gas(a, eos) IN
  CASE u.k \in {"drop", "choke"} -> Fails("pressure taken off", Fits(b.p, RSub(a.p, u.v)) /\ Fits(b.t, a.t) /\ Keeps(a, b))
    [] u.k = "cool" -> Fails("temperature set", Fits(b.t, u.v) /\ Fits(b.p, a.p) /\ Keeps(a, b))
    [] u.k = "scrub" ->
         LET v == VaporFraction(a.x, a.t, a.p) x == GasPart(a.x, a.t, a.p)
         IN Fails("liquid removed", Fits(b.t, a.t) /\ Fits(b.p, a.p)
                  /\ IF RLt(v, PureVapor) THEN SameSeq(Norm(b.x), Norm(x)) /\ Fits(b.mass, RDiv(RMul(RMul(a.mass, v), MolarMass(x)), MolarMass(a.x))) ELSE Keeps(a, b))
    [] u.k = "in" -> Fails("recirculated gas comes in", KeepsGas(a, b) /\ Fits(b.p, a.p) /\ Fits(b.t, a.t) /\ Fits(b.mass, RAdd(a.mass, MassRate(g, u.v))))
    [] u.k = "out" -> Fails("recirculated gas goes out", KeepsGas(a, b) /\ Fits(b.p, a.p) /\ Fits(b.t, a.t) /\ Fits(b.mass, RSub(a.mass, MassRate(g, u.v))))
    [] u.k = "split" -> Fails("gas taken out", KeepsGas(a, b) /\ Fits(b.p, a.p) /\ Fits(b.t, a.t) /\ Fits(b.mass, RSub(a.mass, MassRate(g, u.v))))
    [] u.k = "mix" ->
         LET f == Fed([outs |-> Zero, ins |-> <<[x |-> u.s.x, eos |-> eos, sm |-> u.s.sm]>>], g, a.mass)
             p == RMin(a.p, u.s.p)
             h == RDiv(RAdd(RMul(a.mass, EnthalpyOf(g, a.t, a.p)), RMul(u.s.mass, EnthalpyOf(Gas(u.s, eos), u.s.t, u.s.p))), RAdd(a.mass, u.s.mass))
         IN Fails("streams mixed", SameSeq(Norm(b.x), Norm(f.m.x)) /\ Fits(b.mass, f.mass) /\ Fits(b.p, p) /\ (IsGerg(eos) \/ Fits(b.t, TemperatureAt(f.m, h, p))))
    [] u.k = "comp" ->
         LET i == [m |-> g, p |-> a.p, t |-> a.t, q |-> Flow(a)]
             o == Inside(ch, n, i.q)
             t2 == TemperatureAt(g, RAdd(EnthalpyOf(g, a.t, a.p), RDiv(o[1], o[2])), b.p)
         IN Fails("gas through a compressor", Keeps(a, b))
            \cup Fails("pressure a compressor gives", RClose(b.p, OutletPressure(i, RDbl(o[1]), RDbl(o[2])), IF RLt(RMul(a.p, "8"), b.p) THEN "2/100" ELSE "2/1000", Zero))
            \cup Fails("temperature after a compressor", Fits(b.t, t2))
            \cup Fails("compressor within its limits", RLe(RMul(LeastAt(ch, n), "999999999/1000000000"), i.q) /\ RLe(i.q, RMul(MostAt(ch, n), "1000000001/1000000000")))
\* from unit to unit: us the units, ss the streams between them, the inlet first
ThroughFails(us, ss, eos, sts, n) ==
  UNION {LET u == us[k] ch == IF u.k = "comp" THEN sts[u.st].ch ELSE <<>>
         IN UnitFails(u, ss[k], ss[k + 1], eos, ch, n) \cup WellFormed(ss[k + 1], eos) : k \in Dom(us)}

\* --- what must be found, at a target pd for the inlet s; the units are stages as in Train --------------------------------------------
Comps(us) == SelectSeq([k \in Dom(us) |-> [k |-> k, u |-> us[k]]], LAMBDA c : c.u.k = "comp")
\* standard rate recirculated around compressor k
Around(o, k, common) == IF common THEN o.rec[1] ELSE o.rec[k]
Full == ShareOf(One)
TooWide(run) == \E k \in Dom(run) : RLt(One, RMul(run[k].over, RSub(One, "1/1000000")))

Success(o) == o.fail = "none"
\* flows at the compressors with and without what is recirculated
Whole(o, cs, k) == Flow(o.ss[cs[k].k])
Own(e, o, cs, k, common) == LET a == o.ss[cs[k].k] IN RDiv(RSub(a.mass, MassRate(Gas(a, e.eos), Around(o, k, common))), a.rho)
\* the share of the room above what each must have that is recirculated
RoomShare(e, sts, o, cs, k) ==
  LET n == o.n lo == RMax(Own(e, o, cs, k, FALSE), LeastAt(sts[k].ch, n)) hi == MostAt(sts[k].ch, n)
  IN IF RLe(RSub(hi, lo), RMul(hi, "1/1000000")) THEN "none" ELSE RDbl(RDiv(RSub(Whole(o, cs, k), lo), RSub(hi, lo)))
Least(e, sts, o, cs) == \A k \in Dom(sts) : RClose(Whole(o, cs, k), RMax(Own(e, o, cs, k, FALSE), LeastAt(sts[k].ch, o.n)), Loose, Zero)
\* a choke downstream takes off what is too much, otherwise it is as near as the search gets
Reached(o, pd) ==
  LET p == o.ss[Len(o.ss)].p IN IF o.us[Len(o.us)].k = "choke" THEN RClose(p, pd, Zero, "11/10000") ELSE RClose(p, pd, "1/10000", "2/1000")
Near2(a, b) == RClose(a, b, IF RLt(RMul("8", a), b) THEN "2/100" ELSE "3/1000", Zero)

\* with one loop for each compressor, pressure still too high at speed n
Held(e, sts, m, mass, ps, pd, o, cs) ==
  LET n == o.n N == Len(sts) full == Along(sts, m, mass, ps, n, Full) IN
  CASE e.control = "DOWNSTREAM_CHOKE" -> Fails("choked downstream", Success(o)) \cup Fails("recirculates only what it must", Success(o) => Least(e, sts, o, cs))
    [] e.control = "UPSTREAM_CHOKE" ->
         LET most == MaxOf([k \in 1..N |-> sts[k].drop])
             run == TLCEval([j \in 1..9 |-> LET p == RMul(ps, RDiv(j, "10")) IN IF RLe(p, RAdd(most, "1/2")) THEN <<>> ELSE Along(sts, m, mass, p, n, Nothing)])
             good == {j \in 1..9 : run[j] # <<>> /\ Below(Room(run[j]), One) /\ Below(Outlet(run[j]), pd)}
         IN Fails("choked upstream", good # {} => Success(o)) \cup Fails("recirculates only what it must", Success(o) => Least(e, sts, o, cs))
            \cup Fails("choke upstream out of reach", Success(o) \/ o.fail \in {"stonewall", "inletp", "min_above"})
    [] e.control = "INDIVIDUAL_ASV_RATE" ->
         IF TooWide(full) THEN {}
         ELSE Fails("recirculated", IF Over(pd, Outlet(full)) THEN Success(o) ELSE IF Over(Outlet(full), pd) THEN o.fail = "min_above" /\ Near2(o.achieve, Outlet(full)) ELSE TRUE)
              \cup Fails("the same share of the room everywhere",
                     Success(o) => LET s == [k \in 1..N |-> RoomShare(e, sts, o, cs, k)]
                                   IN \A j, k \in 1..N : s[j] = "none" \/ s[k] = "none" \/ RClose(s[j], s[k], "1/100000", "1/100000"))
    [] e.control = "INDIVIDUAL_ASV_PRESSURE" ->
         LET r == RPow(RDiv(pd, ps), RDiv(One, N))
             to == TLCEval([k \in 1..N |-> RDbl(RMul(ps, RPow(r, RDiv(k, One))))])
             RECURSIVE Stagewise(_, _, _)
             \* what becomes of stage k, from gas m: "ok", "no" or "near" (too close to tell)
             Stagewise(k, g, w) ==
               IF k > N THEN <<>>
               ELSE LET from == IF k = 1 THEN ps ELSE to[k - 1]
                        a == Stage(sts[k], g, w, from, n, Nothing) b == Stage(sts[k], g, w, from, n, Full)
                        wide == RLt(One, a.over)
                        v == IF RClose(a.over, One, Band, Zero) THEN "near" ELSE IF wide THEN "no"
                             ELSE IF Over(a.p2, to[k]) /\ Below(b.p2, to[k]) THEN "ok"
                             ELSE IF Below(a.p2, to[k]) \/ Over(b.p2, to[k]) THEN "no" ELSE "near"
                    IN <<v>> \o Stagewise(k + 1, a.i.m, a.i.mass)
             v == Stagewise(1, m, mass)
             firm == {k \in 1..N : v[k] # "ok"}
         IN IF TooWide(full) THEN {}
            ELSE IF Over(Outlet(full), pd) THEN Fails("recirculated", o.fail = "min_above")
            ELSE IF ~Over(pd, Outlet(full)) THEN {}
            ELSE Fails("recirculated", IF firm = {} THEN Success(o)
                                       ELSE (v[CHOOSE k \in firm : \A j \in firm : k <= j] = "no") => o.fail \in {"stonewall", "max_below", "min_above"})
                 \cup Fails("the same pressure ratio everywhere", Success(o) => \A k \in 1..N : RClose(o.ss[cs[k].k + 1].p, to[k], "2/1000", Zero))

\* with one loop around them all
CommonFails(e, sts, m, mass, ps, pd, o, cs) ==
  LET lo == Slowest(sts) hi == Fastest(sts)
      i(n) == Arriving(sts[1], m, mass, ps)
      \* more and more of it recirculated, from as little to as much as the first compressor takes
      Probes(n) == LET g == i(n) a == RMax(mass, RMul(LeastAt(sts[1].ch, n), g.rho)) b == RMul(MostAt(sts[1].ch, n), g.rho)
                 IN TLCEval([j \in 0..12 |-> Along(sts, m, RDbl(RAdd(a, RMul(RSub(b, a), RDiv(j, "12")))), ps, n, Nothing)])
      In(run) == \A k \in Dom(run) : run[k].flag = "INTERNAL_POINT"
      Feas(rs) == {j \in 1..11 : In(rs[j])}
      top == Probes(hi) low == Probes(lo) mid == Probes(RDbl(Half(lo, hi)))
      T == Feas(top) L == Feas(low)
      First(J) == CHOOSE j \in J : \A k \in J : j <= k
      Final(J) == CHOOSE j \in J : \A k \in J : k <= j
      extra == RSub(o.ss[cs[1].k].mass, mass)
      less == Along(sts, m, RDbl(RAdd(mass, RMul(extra, "97/100"))), ps, o.n, Nothing)
  IN Fails("recirculated by one loop",
           (Cardinality(T) > 1 /\ Cardinality(L) > 1 /\ Feas(mid) # {}) =>
              IF Below(Outlet(top[0]), pd) THEN o.fail = "max_below" /\ o.n = hi
              ELSE IF Over(Outlet(top[First(T)]), pd) /\ Below(Outlet(low[Final(L)]), pd) THEN Success(o)
              ELSE IF Over(Outlet(low[12]), pd) THEN o.fail = "min_above" /\ o.n = lo ELSE TRUE)
     \cup Fails("stonewall told", o.fail = "stonewall" => Cardinality(T) <= 1 \/ (L = {} /\ ~RLt(hi, lo)))
     \cup (IF ~Success(o) \/ REq(o.rec[1], Zero) \/ REq(o.n, lo) THEN {}
           ELSE Fails("one loop recirculates only what it must", \/ RLt(extra, RMul(mass, "1/10000")) \/ \E k \in Dom(less) : RLt(less[k].i.q, RMul(LeastAt(sts[k].ch, o.n), "1001/1000"))
                                                                 \/ L = {}))

Solved(e, sts, o, cs) == Fails("pressure met by speed", Success(o) /\ Least(e, sts, o, cs))
Decision(e, sts, m, mass, ps, pd, o, cs) ==
  LET lo == Slowest(sts) hi == Fastest(sts)
      At(n) == Along(sts, m, mass, ps, n, Nothing)
      top == At(hi) low == At(lo) here == At(o.n)
      H == Held(e, sts, m, mass, ps, pd, o, cs)
  IN IF Over(Room(top), One) THEN Fails("more than it takes", o.fail = "stonewall" /\ o.n = hi)
     ELSE IF ~Below(Room(top), One) THEN {}
     ELSE IF Below(Outlet(top), pd) THEN Fails("more than it gives", o.fail = "max_below" /\ o.n = hi /\ Near2(o.achieve, Outlet(top)) /\ Least(e, sts, o, cs))
     ELSE IF ~Over(Outlet(top), pd) THEN {}
     ELSE IF Below(Room(low), One)
          THEN IF Over(Outlet(low), pd) THEN Fails("slowest speed", RClose(o.n, lo, "2/100000", Zero)) \cup H
               ELSE IF Below(Outlet(low), pd) THEN Solved(e, sts, o, cs)
               ELSE {}
     ELSE IF ~Over(Room(low), One) THEN {}
     ELSE \* it must run faster than its slowest to take the rate
          IF ~Success(o)
          THEN LET RECURSIVE Tight(_, _, _)
                   Tight(a, b, j) == IF j = 0 THEN b ELSE LET c == RDbl(Half(a, b)) IN IF RLe(Room(At(c)), One) THEN Tight(a, c, j - 1) ELSE Tight(c, b, j - 1)
                   out == Outlet(At(Tight(lo, hi, 9)))
               IN Fails("pressure met by speed", ~Below(out, pd))
                  \cup Fails("pressure controlled at the slowest speed that takes the rate", Over(out, pd) => e.control # "DOWNSTREAM_CHOKE" /\ o.fail \in {"stonewall", "min_above", "max_below", "inletp"})
          ELSE IF Over(Outlet(here), pd) THEN Fails("slowest speed that takes the rate", RClose(Room(here), One, "1/100", Zero)) \cup H
          ELSE IF Below(Outlet(here), pd) THEN {"pressure met by speed"}
          ELSE IF Below(Room(here), One) THEN Solved(e, sts, o, cs)
          ELSE {}

\* more taken out somewhere than there is
RECURSIVE Short(_, _, _)
Short(sts, m, mass) ==
  IF sts = <<>> THEN "no"
  ELSE LET st == Head(sts) out == MassRate(m, st.outs) f == Fed(st, m, mass)
       IN IF RLt(Zero, st.outs) /\ RClose(out, mass, "1/1000000", Zero) THEN "near"
          ELSE IF RLt(mass, out) THEN "yes" ELSE Short(Tail(sts), f.m, f.mass)

SolveFails(e, sts, o) ==
  LET s == o.ss[1] m == Gas(s, e.eos) cs == Comps(o.us) pd == o.pd short == Short(sts, m, s.mass)
  IN Fails("speed within the range", RLe(Slowest(sts), o.n) /\ RLe(o.n, Fastest(sts)))
     \cup Fails("nothing recirculated or choked is negative", \A k \in Dom(o.rec) : RLe(Zero, o.rec[k]) /\ RLe(Zero, o.choke))
     \cup (IF Success(o) THEN Fails("a solution can be run", o.runs)
                              \cup (IF o.runs THEN Fails("pressure asked for", Reached(o, pd)) \cup ThroughFails(o.us, o.ss, e.eos, sts, o.n) ELSE {}) ELSE {})
     \cup IF ~e.decide \/ (Success(o) /\ ~o.runs) THEN {}
          ELSE IF short = "near" THEN {}
          ELSE IF short = "yes" THEN (IF e.control = "COMMON_ASV" THEN {} ELSE Fails("more taken out than there is", ~Success(o)))
          ELSE IF e.control = "COMMON_ASV" THEN CommonFails(e, sts, m, s.mass, s.p, pd, o, cs)
          ELSE Decision(e, sts, m, s.mass, s.p, pd, o, cs)

\* --- what is too much: the rate that is left is taken, a little more is not; es.found = at all of it, at what is left, at a little more,
\*     at a half and at a fourth ----------------------------------------------------------------------------------------------------
SpareFails(e) ==
  LET o == e.found left == RSub(e.full, e.over) IN
  Fails("too much of what there is", RLe(Zero, e.over) /\ RLe(e.over, e.full))
  \cup (IF Success(o[1]) THEN Fails("nothing is too much", REq(e.over, Zero))
        ELSE Fails("something is too much", RLt(Zero, e.over))
             \cup (IF RLt(One, left) THEN Fails("what is left is taken", Success(o[2])) \cup Fails("no more is left than must be", ~Success(o[3]))
                   ELSE Fails("something could be left", ~Success(o[4]) /\ ~Success(o[5]))))

\* --- sections one after the other: on one shaft with a pressure after each ("pressures"), each with its own shaft ("shafts"), or the
\*     same pressure ratio over each ("ratio") ----------------------------------------------------------------------------------------
Placed(c) == Len(c) > 1 /\ \A k \in Dom(c) : (c[k] = "UPSTREAM_CHOKE" => k = 1) /\ (c[k] = "DOWNSTREAM_CHOKE" => k = Len(c))
SameHandles(a, b) == Fits(a.n, b.n) /\ SameSeq(a.rec, b.rec) /\ Fits(a.choke, b.choke)
LineFails(e) ==
  LET N == Len(e.secs) A == e.alone H == e.here all == Len(A) = N /\ \A k \in Dom(A) : Success(A[k])
      sts == TLCEval([k \in Dom(e.secs) |-> LET c == StagesOf(e.secs[k].stages) IN [j \in Dom(c) |-> [c[j] EXCEPT !.outs = e.secs[k].stages[j].outs, !.ins = e.secs[k].stages[j].ins]]])
  IN Fails("where chokes may be", e.refused = (e.how = "pressures" /\ ~Placed(e.controls)))
     \cup IF e.refused THEN {} ELSE
       (IF e.fail # "none" THEN {} ELSE
          Fails("a solution can be run", Len(H) = N /\ \A k \in Dom(H) : H[k].runs)
          \cup UNION {IF ~H[k].runs THEN {} ELSE Fails("pressure asked for", Reached(H[k], H[k].pd)) \cup ThroughFails(H[k].us, H[k].ss, e.eos, sts[k], H[k].n) : k \in Dom(H)}
          \cup Fails("speed within the range", \A k \in Dom(H) : RLe(Slowest(sts[k]), H[k].n) /\ RLe(H[k].n, Fastest(sts[k])))
          \cup Fails("one shaft, one speed", e.how = "pressures" => \A j, k \in Dom(H) : H[j].n = H[k].n)
          \cup Fails("no faster than the fastest section must", (e.how = "pressures" /\ all) => RClose(H[1].n, MaxOf([k \in Dom(A) |-> A[k].n]), "1/1000000", Zero))
          \cup Fails("the same ratio over each", e.how = "ratio" =>
                     LET r == RPow(RDiv(H[N].pd, e.ps), RDiv(One, N)) IN \A k \in Dom(H) : H[k].runs => RClose(H[k].ss[Len(H[k].ss)].p, RMul(e.ps, RPow(r, RDiv(k, One))), "2/1000", Zero))
          \cup Fails("each section as by itself", e.how # "pressures" => \A k \in Dom(H) : SameHandles(A[k], H[k])))
       \cup Fails("what a section can not do", ~all => e.fail = A[Len(A)].fail)
       \cup Fails("what each section can do", (all /\ e.how # "pressures") => e.fail = "none")
       \cup Fails("what each section can do at one speed", (all /\ e.how = "pressures" /\ e.decide) => e.fail \in {"none", "min_above", "stonewall"} \cup {c \in {"max_below"} : "INDIVIDUAL_ASV_PRESSURE" \in {e.controls[k] : k \in Dom(e.controls)}})
=============================================================================
