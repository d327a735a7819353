------------------------------ MODULE Validity ------------------------------
(* Which models are refused.  M describes a model by its names and references:
   files, facs = [name, type, file], models = [name, type, refs, kind], fuels = [name, ems, factor], ts = [name, file], vars = [name, expr],
   start (0: none), end, insts = [name, fuel, hc, gens, cons, vents]; expr a sequence of tokens; what may change over time is a
   sequence of [from, v], from = 0 standing for always; cols says which columns a file has.

   Problems(M) is the set of what is wrong; Unsure(M) what the documentation leaves open.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[k] : k \in DOMAIN s}
Twice(s) == {s[k] : k \in {k \in DOMAIN s : \E j \in 1..(k - 1) : s[j] = s[k]}}
Cat2(ss) == LET RECURSIVE F(_) F(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o F(k + 1) IN F(1)
Names(s) == [k \in DOMAIN s |-> s[k].name]

Gens(M) == Cat2([k \in DOMAIN M.insts |-> M.insts[k].gens])
\* consumers with the installation (and generator set) they belong to
FuelCons(M) == Cat2([k \in DOMAIN M.insts |-> M.insts[k].cons])
ElCons(M) == Cat2([k \in DOMAIN Gens(M) |-> Gens(M)[k].cons])
Cons(M) == FuelCons(M) \o ElCons(M)
Vents(M) == Cat2([k \in DOMAIN M.insts |-> M.insts[k].vents])

Components(M) == <<M.name>> \o Names(M.insts) \o Names(Gens(M)) \o Names(Cons(M)) \o Names(Vents(M))
References(M) == Names(M.facs) \o Names(M.models) \o Names(M.fuels)
Bad(M, f) == \E c \in Range(M.cols) : c.file = f /\ c.bad
Cols(M, f) == UNION {Range(c.cols) : c \in {c \in Range(M.cols) : c.file = f}}

\* --- names of values --------------------------------------------------------------------------------------------------------------
SeriesTokens(M) == UNION {{t.name \o ";" \o c : c \in Cols(M, t.file) \ {"DATE"}} : t \in {t \in Range(M.ts) : t.file \in Range(M.files)}}
VarToken(v) == "$var." \o v.name
Tokens(M) == SeriesTokens(M) \cup {VarToken(v) : v \in Range(M.vars)}
Expressions(M) ==
  UNION {{v.expr : v \in Range(M.vars)}, UNION {{h.v : h \in Range(i.hc)} : i \in Range(M.insts)}, {f.factor : f \in {f \in Range(M.fuels) : f.ems # <<>>}},
         UNION {UNION {{u.v.expr, u.v.cond} : u \in Range(c.use)} : c \in Range(Cons(M))},
         UNION {{e.expr : e \in Range(v.ems)} : v \in Range(Vents(M))}}
Unknown(M) == UNION {Range(x) : x \in Expressions(M)} \ Tokens(M)
\* a variable that needs itself
Circle(M) ==
  LET RECURSIVE Needs(_, _)
      Needs(v, k) == IF k = 0 THEN {v} ELSE {v} \cup UNION {Needs(w, k - 1) : w \in {w \in Range(M.vars) : VarToken(w) \in Range(v.expr)}}
  IN \E v \in Range(M.vars) : \E w \in {w \in Range(M.vars) : VarToken(w) \in Range(v.expr)} : v \in Needs(w, Cardinality(Range(M.vars)))

\* --- references --------------------------------------------------------------------------------------------------------------------
TypesOf(M, ref) == {f.type : f \in {f \in Range(M.facs) : f.name = ref}} \cup {m.type : m \in {m \in Range(M.models) : m.name = ref}}
\* a name used twice is refused as such
Is(M, ref, types) == TypesOf(M, ref) # {} /\ TypesOf(M, ref) \subseteq types
Simplified == "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN"
Trains == {Simplified, "VARIABLE_SPEED_COMPRESSOR_TRAIN", "SINGLE_SPEED_COMPRESSOR_TRAIN"}
Pumps == {"PUMP_CHART_SINGLE_SPEED", "PUMP_CHART_VARIABLE_SPEED"}
Compressors == {"COMPRESSOR_TABULAR", "COMPRESSOR_WITH_TURBINE"} \cup Trains
Usable(type) == CASE type = "TABULATED" -> {"TABULAR"} [] type \in {"PUMP", "PUMP_SYSTEM"} -> {"TABULAR"} \cup Pumps
                  [] type \in {"COMPRESSOR", "COMPRESSOR_SYSTEM"} -> Compressors [] OTHER -> {}
Wanted(m) == CASE m.type \in Trains -> <<{"FLUID"}, {"COMPRESSOR_CHART"}>> [] m.type = "COMPRESSOR_WITH_TURBINE" -> <<{"COMPRESSOR_TABULAR"} \cup Trains, {"TURBINE"}>> [] OTHER -> <<>>
ModelsNamed(M, ref) == {m \in Range(M.models) : m.name = ref}
FacNamed(M, ref) == CHOOSE f \in Range(M.facs) : f.name = ref
\* a model and all that it uses, and what those use
Under(M, refs) == refs \cup UNION {Range(m.refs) : m \in UNION {ModelsNamed(M, r) : r \in refs}}
Reached(M, refs) == Under(M, Under(M, Under(M, refs)))
Misfit(M, m) == \E k \in DOMAIN Wanted(m) : ~Is(M, m.refs[k], Wanted(m)[k])
ChartsOf(M, m) == IF m.type \in Trains THEN {c.kind : c \in ModelsNamed(M, m.refs[2])} \ {""} ELSE {}
Generic == {"GENERIC_FROM_INPUT", "GENERIC_FROM_DESIGN_POINT"}
\* the charts of a simplified train are generic, those of the others are not
WrongChart(M, m) == IF m.type = Simplified THEN ChartsOf(M, m) \ Generic # {} ELSE ChartsOf(M, m) \cap Generic # {}
\* and the chart of a train of one speed is one of one speed
OddChart(M, m) == \/ m.type = "SINGLE_SPEED_COMPRESSOR_TRAIN" /\ "VARIABLE_SPEED" \in ChartsOf(M, m)
                  \/ m.type = "VARIABLE_SPEED_COMPRESSOR_TRAIN" /\ "SINGLE_SPEED" \in ChartsOf(M, m)
\* trains that make their charts from what they are to do: not for a system
Adaptive(M, m) == m.type = Simplified /\ (m.kind = "UNKNOWN" \/ "GENERIC_FROM_INPUT" \in ChartsOf(M, m))

\* --- time --------------------------------------------------------------------------------------------------------------------------
\* the dates of the time series are from 2020 on
Start(M) == IF M.start # 0 THEN M.start ELSE 2020
Sorted(t) == \A j, k \in DOMAIN t : j < k => t[j].from < t[k].from
Begins(t) == IF t[1].from = 0 THEN 0 ELSE t[1].from
Late(t, from) == t # <<>> /\ t[1].from > from
\* what is in use some time between start and end
InUse(M, t) == {k \in DOMAIN t : t[k].from < M.end /\ (k = Len(t) \/ t[k + 1].from > Start(M))}
Uses(M, c) == {c.use[k].v : k \in InUse(M, c.use)}
AllUses(M) == UNION {Uses(M, c) : c \in Range(Cons(M))}
Systems == {"PUMP_SYSTEM", "COMPRESSOR_SYSTEM"}
Alive(M, c) == InUse(M, c.use) # {}

\* --- energy ------------------------------------------------------------------------------------------------------------------------
\* what the table or model of a reference gives: "el", "fuel" or "none" (can not be used)
Columns(f) == CASE f.type = "ELECTRICITY2FUEL" -> {"POWER", "FUEL"} [] f.type = "PUMP_CHART_SINGLE_SPEED" -> {"RATE", "HEAD", "EFFICIENCY"}
                [] f.type = "PUMP_CHART_VARIABLE_SPEED" -> {"SPEED", "RATE", "HEAD", "EFFICIENCY"} [] OTHER -> {}
Fit(M, f) == /\ Columns(f) \subseteq Cols(M, f.file)
             /\ f.type \in {"TABULAR", "COMPRESSOR_TABULAR"} => Cols(M, f.file) \cap {"POWER", "FUEL"} # {}
             /\ f.type = "COMPRESSOR_TABULAR" => "RATE" \in Cols(M, f.file)
Gives(M, ref) ==
  LET T == TypesOf(M, ref) IN
  IF T \cap {"TABULAR", "COMPRESSOR_TABULAR"} # {} THEN (IF "FUEL" \in Cols(M, FacNamed(M, ref).file) THEN "fuel" ELSE "el")
  ELSE IF "COMPRESSOR_WITH_TURBINE" \in T THEN "fuel" ELSE "el"
GivesAny(M, v, what) == \E k \in DOMAIN v.refs : v.type # "DIRECT" /\ Is(M, v.refs[k], Usable(v.type)) /\ Gives(M, v.refs[k]) = what
\* files that nobody would mistake for each other
Odd(M, f) == f.file \in Range(M.files) /\ LET C == Cols(M, f.file) IN
  CASE f.type = "ELECTRICITY2FUEL" -> C # {"POWER", "FUEL"} [] f.type = "TABULAR" -> "X" \notin C [] f.type = "COMPRESSOR_TABULAR" -> ~({"RATE"} \subseteq C /\ C \cap {"POWER", "FUEL"} # {} /\ Cardinality(C) = 2)
    [] f.type = "PUMP_CHART_SINGLE_SPEED" -> C # {"RATE", "HEAD", "EFFICIENCY"} [] OTHER -> C # {"SPEED", "RATE", "HEAD", "EFFICIENCY"}

Categories == {"BASE-LOAD", "COLD-VENTING-FUGITIVE", "COMPRESSOR", "FIXED-PRODUCTION-LOAD", "FLARE", "MISCELLANEOUS", "PUMP", "GAS-DRIVEN-COMPRESSOR", "TURBINE-GENERATOR", "POWER-FROM-SHORE",
               "OFFSHORE-WIND", "LOADING", "STORAGE", "STEAM-TURBINE-GENERATOR", "BOILER", "HEATER"}
P(what, bad) == IF bad THEN {what} ELSE {}

FuelOf(i, own) == IF own # <<>> THEN own ELSE i.fuel
\* own: of a consumer or generator set that is used from some time on
FuelProblems(M, i, own, from) ==
  LET t == FuelOf(i, own) IN
  P("no fuel", t = <<>>) \cup P("fuel that does not exist", \E k \in InUse(M, t) : t[k].v \notin Range(Names(M.fuels)))
  \cup P("fuel that begins too late", Late(t, IF from > Start(M) THEN from ELSE Start(M))) \cup P("dates out of order", ~Sorted(t))
SettingProblems(u) ==
  LET n == Len(u.refs) IN
  UNION {P("a list that is not as long as the system is large", w.n # n \/ (w.sp > 0 /\ w.sp # n) \/ (w.dp > 0 /\ w.dp # n) \/ Len(w.cross) > n) : w \in Range(u.settings)}
SystemProblems(u) ==
  UNION {P("what is too much goes nowhere", \E k \in DOMAIN w.cross : w.cross[k] \notin 0..Len(u.refs)) \cup P("a part of no total", w.frac /\ ~u.total)
         \cup P("no pressure", w.sp = 0 \/ w.dp = 0) : w \in Range(u.settings)}

Problems(M) ==
  P("two components of one name", Twice(Components(M)) # {}) \cup P("two references of one name", Twice(References(M)) # {}) \cup P("two time series of one name", Twice(Names(M.ts)) # {})
  \cup P("no installation", M.insts = <<>>)
  \cup P("two emissions of one name", \E f \in Range(M.fuels) : Twice(f.ems) # {})
  \cup P("a file that does not exist", \E x \in Range(M.ts) \cup Range(M.facs) : x.file \notin Range(M.files))
  \cup P("a value that does not exist", Unknown(M) # {}) \cup P("a variable that needs itself", Circle(M))
  \cup P("an empty installation", \E i \in Range(M.insts) : i.gens = <<>> /\ i.cons = <<>> /\ i.vents = <<>>)
  \cup P("a generator set without consumers", \E g \in Range(Gens(M)) : g.cons = <<>>)
  \cup P("a category that does not exist", \/ \E c \in Range(Cons(M)) \cup Range(Gens(M)) : \E x \in Range(c.cat) : x.v \notin Categories
                                          \/ \E v \in Range(Vents(M)) : v.cat \notin Categories)
  \cup P("a reference of the wrong kind or to nothing", \/ \E c \in Range(Cons(M)) : \E u \in Range(c.use) : u.v.type # "DIRECT" /\ \E k \in DOMAIN u.v.refs : ~Is(M, u.v.refs[k], Usable(u.v.type))
                                                        \/ \E g \in Range(Gens(M)) : \E x \in Range(g.model) : ~Is(M, x.v, {"ELECTRICITY2FUEL"})
                                                        \/ \E u \in AllUses(M) : u.type # "DIRECT" /\ \E r \in Reached(M, Range(u.refs)) : \E m \in ModelsNamed(M, r) : Misfit(M, m))
  \cup P("a chart of the wrong kind", \/ \E m \in Range(M.models) : m.type = Simplified /\ WrongChart(M, m)
                                     \/ \E u \in AllUses(M) : u.type # "DIRECT" /\ \E r \in Reached(M, Range(u.refs)) : \E m \in ModelsNamed(M, r) : WrongChart(M, m))
  \cup P("a system of trains that adapt", \E u \in AllUses(M) : u.type = "COMPRESSOR_SYSTEM" /\ \E r \in Reached(M, Range(u.refs)) : \E m \in ModelsNamed(M, r) : Adaptive(M, m))
  \cup UNION {UNION {P("two of one name in a system", u.v.type \in Systems /\ Twice(u.v.names) # {}) \cup (IF u.v.type \in Systems THEN SettingProblems(u.v) ELSE {}) : u \in Range(c.use)} : c \in Range(Cons(M))}
  \cup UNION {IF u.type \in Systems THEN SystemProblems(u) ELSE {} : u \in AllUses(M)}
  \cup P("a system that runs on both fuel and electricity", \E u \in AllUses(M) : u.type \in Systems /\ GivesAny(M, u, "fuel") /\ GivesAny(M, u, "el"))
  \cup P("the kind of energy use changes", \E c \in Range(Cons(M)) : Cardinality({u.v.type : u \in Range(c.use)}) > 1)
  \cup P("an electricity consumer's use of fuel", \E c \in Range(ElCons(M)) : \E v \in Uses(M, c) : GivesAny(M, v, "fuel"))
  \cup P("a fuel consumer's use of electricity", \E c \in Range(FuelCons(M)) : \/ \E u \in Range(c.use) : u.v.type \in {"PUMP", "PUMP_SYSTEM"}
                                                                               \/ \E v \in Uses(M, c) : GivesAny(M, v, "el"))
  \cup P("cable loss of power that is not from shore", \E g \in Range(Gens(M)) : g.cable /\ \A x \in Range(g.cat) : x.v # "POWER-FROM-SHORE")
  \cup P("a regularity that is no fraction", \E i \in Range(M.insts) : \E k \in InUse(M, i.reg) : i.reg[k].v \notin {"0", "0.5", "1"})
  \cup P("a table with a cell that is no number", \/ \E f \in Range(M.facs) : Bad(M, f.file) /\ ((\E u \in AllUses(M) : f.name \in Reached(M, Range(u.refs))) \/ \E g \in Range(Gens(M)) : \E k \in InUse(M, g.model) : g.model[k].v = f.name)
                                               \/ \E t \in Range(M.ts) : Bad(M, t.file))
  \cup P("dates out of order", (\E i \in Range(M.insts) : ~Sorted(i.hc) \/ ~Sorted(i.reg) \/ ~Sorted(i.fuel)) \/ (\E c \in Range(Cons(M)) : ~Sorted(c.cat) \/ ~Sorted(c.fuel)) \/ (\E g \in Range(Gens(M)) : ~Sorted(g.fuel)) \/ \E c \in Range(Cons(M)) : ~Sorted(c.use) \/ \E g \in Range(Gens(M)) : ~Sorted(g.model) \/ ~Sorted(g.cat))
  \cup P("no generator set model", \E g \in Range(Gens(M)) : InUse(M, g.model) = {})
  \cup P("ends before it begins", M.end <= Start(M))
  \cup P("no time series and no start", M.ts = <<>> /\ M.start = 0)
  \cup UNION {UNION {FuelProblems(M, i, g.fuel, Begins(g.model)) : g \in Range(i.gens)} \cup UNION {FuelProblems(M, i, c.fuel, Begins(c.use)) : c \in {c \in Range(i.cons) : Alive(M, c)}} : i \in Range(M.insts)}

Unsure(M) ==
  P("a table of another kind", \E f \in Range(M.facs) : Odd(M, f))
  \cup P("a file for a series that is not one", \E t \in Range(M.ts) : "DATE" \notin Cols(M, t.file))
  \cup P("a pump by a table", \E c \in Range(Cons(M)) : \E u \in Range(c.use) : u.v.type \in {"PUMP", "PUMP_SYSTEM"} /\ \E k \in DOMAIN u.v.refs : "TABULAR" \in TypesOf(M, u.v.refs[k]))
  \cup P("a model that could not be used", \E m \in Range(M.models) : Misfit(M, m) \/ WrongChart(M, m) \/ OddChart(M, m))
  \cup P("a system that is not used or has nothing to do", \E c \in Range(Cons(M)) : \E u \in Range(c.use) : u.v.type \in Systems /\ (u.v.settings = <<>> \/ u.v.refs = <<>> \/ SystemProblems(u.v) # {}
        \/ \E r \in Reached(M, Range(u.v.refs)) : \E m \in ModelsNamed(M, r) : Adaptive(M, m)))
  \cup P("too few places to send what is too much", \E c \in Range(Cons(M)) : \E u \in Range(c.use) : \E w \in Range(u.v.settings) : w.cross # <<>> /\ Len(w.cross) < Len(u.v.refs))
  \cup P("without a start, a fuel that begins with the time series", M.start = 0 /\ \E i \in Range(M.insts) : Late(i.fuel, 0) \/ (\E g \in Range(i.gens) : Late(g.fuel, 0)) \/ \E c \in Range(i.cons) : Late(c.fuel, 0))
  \cup P("a turbine on a fuel table", \E m \in Range(M.models) : m.type = "COMPRESSOR_WITH_TURBINE" /\ TypesOf(M, m.refs[1]) # {} /\ Gives(M, m.refs[1]) = "fuel")
  \cup P("a generator set model that begins late", \E g \in Range(Gens(M)) : Late(g.model, Start(M)))
  \cup P("a category that begins late", \E c \in Range(Cons(M)) \cup Range(Gens(M)) : Late(c.cat, Start(M)))
  \cup P("nothing at all", M.fuels = <<>>)
  \cup P("a generator set nobody uses in time", \E g \in Range(Gens(M)) : \A c \in Range(g.cons) : ~Alive(M, c))
  \cup P("a table that could not be used", \E f \in Range(M.facs) : Bad(M, f.file))
  \cup P("a regularity that begins late", \E i \in Range(M.insts) : Late(i.reg, Start(M)))
=============================================================================
