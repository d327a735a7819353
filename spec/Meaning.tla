------------------------------- MODULE Meaning -------------------------------
(* What a model (see Validity) means: names of files, facilities, models, fuels and variables stand for what they define, the order
   definitions are written in says nothing, unused ones neither, an entry that repeats the one before it is the same entry going on.

   Two models of the same meaning have the same results, whatever was run before: a run is a transition seen -> seen' of what has been
   observed so far, and may only agree with it.                                                                                      *)
EXTENDS Structure, Num

\* --- expressions: sums of columns and variables (a variable adds one of its own), in any order ------------------------------------------
RECURSIVE Leaves(_, _)
Leaves(M, x) == Cat2(Map(x, LAMBDA t :
  IF \E v \in Range(M.vars) : VarToken(v) = t
  THEN <<<<"", "1">>>> \o Leaves(M, (CHOOSE v \in Range(M.vars) : VarToken(v) = t).expr)
  ELSE LET s == CHOOSE s \in Range(M.ts) : \E c \in Cols(M, s.file) : s.name \o ";" \o c = t IN <<<<s.file, CHOOSE c \in Cols(M, s.file) : s.name \o ";" \o c = t>>>>))
Value(M, x) == Bag(Leaves(M, x))

\* --- references -----------------------------------------------------------------------------------------------------------------------
RECURSIVE Def(_, _)
Def(M, ref) ==
  IF \E f \in Range(M.facs) : f.name = ref THEN LET f == FacNamed(M, ref) IN <<f.type, f.file>>
  ELSE IF ModelsNamed(M, ref) = {} THEN <<"undefined">>  \* by what is never in use
  ELSE LET m == CHOOSE m \in Range(M.models) : m.name = ref IN <<m.type, m.kind, Map(m.refs, LAMBDA r : Def(M, r))>>
FuelDef(M, name) == IF name \notin Range(Names(M.fuels)) THEN <<"undefined">> ELSE LET f == CHOOSE f \in Range(M.fuels) : f.name = name IN <<Range(f.ems), Value(M, f.factor)>>

\* --- what changes over time -----------------------------------------------------------------------------------------------------------
From(M, e) == IF e.from < M.start THEN M.start ELSE e.from
\* one(e): its entries are never taken together
Merged(M, t, mean(_), apart(_)) ==
  LET s == Map(t, LAMBDA e : [from |-> From(M, e), v |-> mean(e.v), apart |-> apart(e.v)])
      RECURSIVE F(_)
      F(k) == IF k = 0 THEN <<>> ELSE IF k > 1 /\ ~s[k].apart /\ s[k].v = s[k - 1].v THEN F(k - 1) ELSE Append(F(k - 1), s[k])
  IN F(Len(s))
Never(v) == FALSE
Plain(v) == v
\* its number of stages or its chart is found from all of its input
FromInput(M, u) == \E m \in UNION {ModelsNamed(M, r) : r \in Reached(M, Range(u.refs))} : m.kind \in {"GENERIC_FROM_INPUT", "UNKNOWN"}

Setting(M, s) == s
Use(M, u) == [u EXCEPT !.refs = Map(@, LAMBDA r : Def(M, r)), !.expr = Value(M, @), !.cond = Value(M, @)]
Consumer(M, c) == [name |-> c.name, cat |-> Merged(M, c.cat, Plain, Never), fuel |-> Merged(M, c.fuel, LAMBDA f : FuelDef(M, f), Never),
                   use |-> Merged(M, c.use, LAMBDA u : Use(M, u), LAMBDA u : FromInput(M, u))]
Installation(M, i) ==
  [name |-> i.name, fuel |-> Merged(M, i.fuel, LAMBDA f : FuelDef(M, f), Never), hc |-> Merged(M, i.hc, LAMBDA x : Value(M, x), Never), reg |-> Merged(M, i.reg, Plain, Never),
   gens |-> Bag(Map(i.gens, LAMBDA g : [name |-> g.name, cable |-> g.cable, cat |-> Merged(M, g.cat, Plain, Never), fuel |-> Merged(M, g.fuel, LAMBDA f : FuelDef(M, f), Never),
                                        model |-> Merged(M, g.model, LAMBDA r : Def(M, r), Never), cons |-> Bag(Map(g.cons, LAMBDA c : Consumer(M, c)))])),
   cons |-> Bag(Map(i.cons, LAMBDA c : Consumer(M, c))),
   vents |-> Bag(Map(i.vents, LAMBDA v : [name |-> v.name, cat |-> v.cat, ems |-> Bag(Map(v.ems, LAMBDA x : <<x.name, Value(M, x.expr)>>))]))]
\* data: which of several contents its files have
Meaning(M) == [name |-> M.name, data |-> M.data, start |-> M.start, end |-> M.end, insts |-> Bag(Map(M.insts, LAMBDA i : Installation(M, i)))]

\* --- results: functions of time, by what they are of: [key, from, v] --------------------------------------------------------------------
Then(s, t) == LET ks == {k \in DOMAIN s.from : s.from[k] <= t} IN IF ks = {} THEN "none" ELSE s.v[CHOOSE k \in ks : \A j \in ks : j <= k]
SameValue(a, b) == a = b \/ (a # "none" /\ b # "none" /\ Near(a, b))
SameSeries(a, b) == \/ a.from = b.from /\ Len(a.v) = Len(b.v) /\ \A k \in DOMAIN a.v : SameValue(a.v[k], b.v[k])
                    \/ \A t \in Range(a.from) \cup Range(b.from) : SameValue(Then(a, t), Then(b, t))
Keys(r) == {s.key : s \in Range(r)}
Differ(a, b) ==
  (IF Keys(a) = Keys(b) /\ Len(a) = Len(b) THEN {} ELSE {"what there are results of"})
  \cup (IF \A s \in Range(a) : \A t \in Range(b) : s.key = t.key => SameSeries(s, t) THEN {} ELSE {"results"})
=============================================================================
