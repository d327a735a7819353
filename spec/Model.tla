-------------------------------- MODULE Model --------------------------------
(* The semantics of an eCalc model, stage by stage.

   A model M has time series, variables, tables, fuels and installations with fuel consumers,
   generator sets with electricity consumers, and venting emitters.  Evaluation goes through the stages
      time vector -> time series and variables -> regularity and export -> consumers
      -> generator sets -> emissions -> volumes -> totals
   Each stage is an operator from M and the previous stages' results to its own result, so that a recorded
   evaluation can be checked one transition at a time.                                             *)
EXTENDS Rates, Expr

Dom(s) == 1..Len(s)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
ElCons(in) == Flatten([g \in Dom(in.gensets) |-> in.gensets[g].cons])
AllCons(in) == in.fuelcons \o ElCons(in)

(* ---------------------------------- 1. time vector ---------------------------------- *)
ModelDates(M) ==
  UNION {DateKeys(M.vars[k].def) : k \in Dom(M.vars)}
  \cup UNION {DateKeys(M.inst[k].reg) \cup DateKeys(M.inst[k].hc) \cup DateKeys(M.inst[k].fuel) : k \in Dom(M.inst)}
  \cup UNION {UNION {DateKeys(c.models) \cup DateKeys(c.fuel) \cup DateKeys(c.cat) : c \in Range(AllCons(M.inst[k]))} : k \in Dom(M.inst)}
  \cup UNION {UNION {DateKeys(g.fuel) \cup DateKeys(g.e2f) \cup DateKeys(g.cat) : g \in Range(M.inst[k].gensets)} : k \in Dom(M.inst)}
  \cup UNION {DateKeys(c.models) \cup DateKeys(c.fuel) \cup DateKeys(c.cat) : c \in Range(M.other)}   \* consumers never active

SeriesDates(M) == UNION {Range(M.ts[k].t) : k \in {j \in Dom(M.ts) : M.ts[j].infl}}
AnySeriesDates(M) == UNION {Range(M.ts[k].t) : k \in Dom(M.ts)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
\* START and END default to the first and last date known to the model.
StartOf(M) == IF M.start # Always THEN M.start ELSE SetMin(SeriesDates(M))
ModelTimeVector(M) == TimeVector(StartOf(M), M.end, SeriesDates(M) \cup ModelDates(M))

(* --------------------------- 2. time series and variables --------------------------- *)
RECURSIVE SeriesEnv(_, _, _)
SeriesEnv(M, st, k) ==
  IF k = 0 THEN <<>>
  ELSE LET s == M.ts[k] prev == SeriesEnv(M, st, k - 1)
           mine == [r \in {s.name \o ";" \o s.cols[c].name : c \in Dom(s.cols)} |->
                      LET c == CHOOSE c \in Dom(s.cols) : s.name \o ";" \o s.cols[c].name = r
                          one == [t |-> s.t, v |-> s.cols[c].v, interp |-> s.interp, extrap |-> s.extrap]
                      IN [i \in Dom(st) |-> Fit(one, st[i])]]
       IN IF k = 1 THEN mine ELSE mine @@ prev

EvalT(tm, env, st, default) ==
  [i \in Dom(st) |-> IF Defined(tm, st[i]) THEN Eval(InForce(tm, st[i]), env, i) ELSE default]

VarName(v) == "$var." \o v.name
NeedsOf(v) == UNION {Refs(v.def[k].v) : k \in Dom(v.def)}
RECURSIVE Resolve(_, _, _)
\* Variables in any order of definition: each is evaluated once everything it refers to is known.
Resolve(pending, env, st) ==
  LET ready == {v \in pending : NeedsOf(v) \subseteq DOMAIN env}
  IN IF ready = {} THEN [left |-> pending, env |-> env]
     ELSE LET new == [r \in {VarName(v) : v \in ready} |->
                        LET v == CHOOSE v \in ready : VarName(v) = r IN EvalT(v.def, env, st, Zero)]
          IN Resolve(pending \ ready, env @@ new, st)
Env(M, st) == Resolve(Range(M.vars), SeriesEnv(M, st, Len(M.ts)), st)

(* ------------------------- 3. regularity and hydrocarbon export ------------------------- *)
Regularity(in, env, st) == EvalT(in.reg, env, st, Zero)
HcExport(in, env, st) == EvalT(in.hc, env, st, Zero)

(* -------------------------------- 4. energy consumers -------------------------------- *)
RECURSIVE Product(_, _, _)
Product(cs, env, i) == IF cs = <<>> THEN One ELSE RMul(Eval(Head(cs), env, i), Product(Tail(cs), env, i))
\* Every condition must be fulfilled (non-zero).
On(m, env, i) == \A c \in Range(m.cond) : ~REq(Eval(c, env, i), Zero)
Masked(x, m, env, i) == IF On(m, env, i) THEN Eval(x, env, i) ELSE Zero
WithLoss(x, m, env, i) == IF m.plf = <<>> THEN x ELSE RDiv(x, RSub(One, Eval(m.plf, env, i)))

\* Linear interpolation in a table of points with distinct x, in any order; outside, below/above.
Interp(xs, ys, x, below, above) ==
  LET B == {k \in Dom(xs) : RLe(xs[k], x)}
      A == {k \in Dom(xs) : RLe(x, xs[k])}
      lo == CHOOSE k \in B : \A j \in B : RLe(xs[j], xs[k])
      hi == CHOOSE k \in A : \A j \in A : RLe(xs[k], xs[j])
  IN IF x = "nan" THEN "nan"
     ELSE IF B = {} THEN below ELSE IF A = {} THEN above
     ELSE IF REq(xs[lo], xs[hi]) THEN ys[lo]
     ELSE RAdd(ys[lo], RMul(RDiv(RSub(x, xs[lo]), RSub(xs[hi], xs[lo])), RSub(ys[hi], ys[lo])))

\* A tabulated consumer: one variable interpolates in the table; several variables in a table sampled
\* from the plane base + sum coef*x over a box (so that every linear interpolation gives the plane).
TabValue(T, x) ==
  IF Len(T.cols) = 1 THEN Interp(T.cols[1].v, T.y, x[1], "nan", "nan")
  ELSE IF \E d \in Dom(T.cols) : RLt(x[d], T.cols[d].lo) \/ RLt(T.cols[d].hi, x[d]) THEN "nan"
  ELSE RAdd(T.base, RSum([d \in Dom(T.cols) |-> RMul(T.cols[d].coef, x[d])]))

\* The stream-day energy of model m in period i before power loss.
RawEnergy(M, m, env, reg, i) ==
  CASE m.k = "direct" ->
         LET x == Masked(m.e, m, env, i) IN IF m.rt = "CALENDAR_DAY" THEN ToStream(x, reg[i]) ELSE x
    [] m.k = "tab" ->
         LET T == M.tabs[m.tab]
             x == [d \in Dom(T.cols) |->
                     LET w == m.vars[CHOOSE k \in Dom(m.vars) : m.vars[k].name = T.cols[d].name]
                         v == Masked(w.e, m, env, i)
                     IN IF w.rate THEN ToStream(v, reg[i]) ELSE v]
         IN TabValue(T, x)
\* Energy of consumer c: nothing outside its models.
Energy(M, c, env, reg, st) ==
  [i \in Dom(st) |-> IF ~Defined(c.models, st[i]) THEN Zero
                     ELSE LET m == InForce(c.models, st[i]) IN WithLoss(RawEnergy(M, m, env, reg, i), m, env, i)]
\* Valid where the energy could be computed; only a direct electrical load may be negative.
EnergyValid(M, c, env, reg, st, el) ==
  [i \in Dom(st) |-> IF ~Defined(c.models, st[i]) THEN TRUE
                     ELSE LET m == InForce(c.models, st[i]) e == RawEnergy(M, m, env, reg, i)
                          IN e # "nan" /\ (RLe(Zero, e) \/ (m.k = "direct" /\ el))]

(* ---------------------------------- 5. generator sets ---------------------------------- *)
GenFuel(T, p) == IF p = "nan" \/ RLe(p, Zero) THEN Zero
                 ELSE Interp(T.cols[1].v, T.y, p, MinOf(T.y), MaxOf(T.y))
GenMargin(T, p) == RSub(MaxOf(T.cols[1].v), p)
GensetPower(powers, n) == SumSeries(powers, n)
\* Fuel, margin and validity from the power requirement; outside its models a set is not valid and keeps its last fuel rate.
GensetRaw(M, g, power, st) ==
  [i \in Dom(st) |-> IF Defined(g.e2f, st[i]) THEN GenFuel(M.tabs[InForce(g.e2f, st[i])], power[i]) ELSE "nan"]
GensetMargin(M, g, power, st) ==
  [i \in Dom(st) |-> IF Defined(g.e2f, st[i]) THEN GenMargin(M.tabs[InForce(g.e2f, st[i])], power[i]) ELSE Zero]
GensetValid(M, g, power, st) ==
  [i \in Dom(st) |-> /\ Defined(g.e2f, st[i])
                     /\ LET m == GenMargin(M.tabs[InForce(g.e2f, st[i])], power[i]) IN m # "nan" /\ RLe(Zero, m)]
RECURSIVE Carry(_)
Carry(s) == IF s = <<>> THEN <<>>
            ELSE LET n == Len(s) p == Carry(SubSeq(s, 1, n - 1))
                 IN Append(p, IF s[n] # "nan" THEN s[n] ELSE IF n = 1 THEN Zero ELSE p[n - 1])
GensetFuel(M, g, power, st) == Carry(GensetRaw(M, g, power, st))

(* ------------------------------------ 6. emissions ------------------------------------ *)
FuelOf(in, x) == IF x.fuel = <<>> THEN in.fuel ELSE x.fuel
EmissionNames(M, tm) == UNION {{e.name : e \in Range(M.fuels[tm[k].v])} : k \in Dom(tm)}
\* Tonnes per day of emission name from a fuel rate (any day type): the factor (kg/Sm3) of the fuel in force.
FuelEmission(M, tm, name, rate, env, st) ==
  [i \in Dom(st) |->
     IF ~Defined(tm, st[i]) THEN Zero
     ELSE LET es == {e \in Range(M.fuels[InForce(tm, st[i])]) : Lower(e.name) = name}
          IN IF es = {} THEN Zero
             ELSE RDiv(RMul(rate[i], Eval((CHOOSE e \in es : TRUE).factor, env, i)), "1000")]
\* Venting: a direct rate in kg/d or t/d, or an oil volume rate times a factor in kg/Sm3; tonnes per calendar day.
VentRate(r, env, reg, i) ==
  LET x == Masked(r.e, r, env, i) IN IF r.rt = "CALENDAR_DAY" THEN ToStream(x, reg[i]) ELSE x
VentEmission(v, e, env, reg, i) ==
  LET t == IF v.k = "direct" THEN RDiv(VentRate(e, env, reg, i), IF e.unit = "KG_PER_DAY" THEN "1000" ELSE One)
           ELSE RDiv(RMul(VentRate(v.rate, env, reg, i), Eval(e.factor, env, i)), "1000")
  IN ToCalendar(t, reg[i])
=============================================================================
