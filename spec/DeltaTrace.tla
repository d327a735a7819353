----------------------------- MODULE DeltaTrace -----------------------------
(* Comparing two results: the delta profile.  Each result has periods (time vector tv) and components identified by kind and
   name; a component or an emission that only one of them has counts as zero in the other.                              *)
EXTENDS Rates, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Dom(s) == 1..Len(s)
Ids(R) == {<<R.comps[k].kind, R.comps[k].name>> : k \in Dom(R.comps)}
Has(R, id) == id \in Ids(R)
Comp(R, id) == R.comps[CHOOSE k \in Dom(R.comps) : <<R.comps[k].kind, R.comps[k].name>> = id]
\* The common span and its dates.
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
From(e) == SetMax({e.ref.tv[1], e.chg.tv[1]})
To(e) == SetMin({e.ref.tv[Len(e.ref.tv)], e.chg.tv[Len(e.chg.tv)]})
Common(e) == SortInts({d \in Range(e.ref.tv) \cup Range(e.chg.tv) : From(e) <= d /\ d <= To(e)})
\* The value in force at t of a series over the periods of R.
AtT(R, v, t) == v[CHOOSE i \in Dom(v) : R.tv[i] <= t /\ t < R.tv[i + 1]]
FitTo(R, v, D) == [i \in 1..(Len(D) - 1) |-> AtT(R, v, D[i])]
Nil(D) == ConstSeq(Zero, Len(D) - 1)
Energy(R, id, D) == IF Has(R, id) THEN FitTo(R, Comp(R, id).energy, D) ELSE Nil(D)
Power(R, id, D) == IF Has(R, id) /\ Comp(R, id).power # <<>> THEN FitTo(R, Comp(R, id).power, D) ELSE Nil(D)
Valid(R, id, D) == IF Has(R, id) THEN FitTo(R, Comp(R, id).valid, D) ELSE ConstSeq(TRUE, Len(D) - 1)
EmNames(R, id) == IF Has(R, id) THEN {x.name : x \in Range(Comp(R, id).em)} ELSE {}
Em(R, id, n, D) == IF n \in EmNames(R, id) THEN FitTo(R, (CHOOSE x \in Range(Comp(R, id).em) : x.name = n).rate, D) ELSE Nil(D)
Minus(a, b) == [i \in Dom(a) |-> RSub(a[i], b[i])]
HasPower(R, id) == Has(R, id) /\ Comp(R, id).power # <<>>

\* One of the two results on the common dates, with what only the other has added as zero.
Normal(e, R, g, name) ==
  LET D == Common(e) all == Ids(e.ref) \cup Ids(e.chg)
  IN Fails(name \o ": periods", g.tv = D /\ \A k \in Dom(g.comps) : g.comps[k].tv = D)
     \cup Fails(name \o ": components", Ids(g) = all /\ Len(g.comps) = Cardinality(all))
     \cup UNION {IF ~Has(g, id) THEN {} ELSE
          LET c == Comp(g, id)
          IN Fails(name \o ": energy of " \o id[2], NearSeq(c.energy, Energy(R, id, D)))
             \cup Fails(name \o ": validity of " \o id[2], c.valid = Valid(R, id, D))
             \cup Fails(name \o ": power of " \o id[2], NearSeq(c.power, Power(R, id, D)) \/ (c.power = <<>> /\ ~HasPower(R, id)))
             \cup Fails(name \o ": emissions of " \o id[2],
                    /\ {x.name : x \in Range(c.em)} = EmNames(e.ref, id) \cup EmNames(e.chg, id)
                    /\ \A x \in Range(c.em) : x.iname = x.name /\ NearSeq(x.rate, Em(R, id, x.name, D))) : id \in all}
SameUnit(e, id) == Has(e.ref, id) /\ Has(e.chg, id) => Comp(e.ref, id).unit = Comp(e.chg, id).unit
DeltaOk(e, g) ==
  LET D == Common(e) all == {id \in Ids(e.ref) \cup Ids(e.chg) : SameUnit(e, id)}
  IN Fails("delta: periods", g.delta.tv = D /\ \A k \in Dom(g.delta.comps) : g.delta.comps[k].tv = D)
     \cup Fails("delta: comparable components", Ids(g.delta) = all /\ Len(g.delta.comps) = Cardinality(all))
     \cup Fails("delta: incomparable components are reported", Len(g.errors) = Cardinality(Ids(e.ref) \cup Ids(e.chg)) - Cardinality(all))
     \cup UNION {IF ~Has(g.delta, id) THEN {} ELSE
          LET c == Comp(g.delta, id)
          IN Fails("delta: energy of " \o id[2], NearSeq(c.energy, Minus(Energy(e.chg, id, D), Energy(e.ref, id, D))))
             \cup Fails("delta: power of " \o id[2],
                    IF HasPower(e.ref, id) \/ HasPower(e.chg, id) THEN NearSeq(c.power, Minus(Power(e.chg, id, D), Power(e.ref, id, D)))
                    ELSE c.power = <<>> \/ NearSeq(c.power, Nil(D)))
             \cup Fails("delta: validity of " \o id[2], c.valid = [i \in 1..(Len(D) - 1) |-> Valid(e.ref, id, D)[i] /\ Valid(e.chg, id, D)[i]])
             \cup Fails("delta: emissions of " \o id[2],
                    /\ {x.name : x \in Range(c.em)} = EmNames(e.ref, id) \cup EmNames(e.chg, id)
                    /\ \A x \in Range(c.em) : x.iname = x.name /\ NearSeq(x.rate, Minus(Em(e.chg, id, x.name, D), Em(e.ref, id, x.name, D)))) : id \in all}
Verdict(e) ==
  Fails("the compared results are not changed", e.ref2 = e.ref /\ e.chg2 = e.chg)
  \cup IF e.got = <<>> THEN Fails("refused although the results overlap: " \o e.refused, From(e) >= To(e))
       ELSE IF From(e) >= To(e) THEN {"results that do not overlap were compared"}
       ELSE Normal(e, e.chg, e.got[1].chg, "changed") \cup Normal(e, e.ref, e.got[1].ref, "reference") \cup DeltaOk(e, e.got[1])
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
