------------------------------ MODULE Structure ------------------------------
(* What the results and the flow diagram of a model (see Validity) contain: every component once, under what it belongs to.            *)
EXTENDS Validity

Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
Keep(s, ok(_)) == SelectSeq(s, ok)
Bag(s) == [x \in Range(s) |-> Cardinality({k \in DOMAIN s : s[k] = x})]

LiveOf(M, cons) == Keep(cons, LAMBDA c : Alive(M, c))
\* everything that uses fuel or gives off something, with the installation it belongs to
FuelUsers(M, i) == i.gens \o LiveOf(M, i.cons)

TypeOf(c) == LET t == c.use[1].v.type IN CASE t \in {"DIRECT", "TABULATED"} -> "GENERIC" [] OTHER -> t
LevelOf(c) == IF TypeOf(c) \in Systems THEN "SYSTEM" ELSE "CONSUMER"

\* the emissions of the fuels in use some time in the period, also of those used up before the user of them begins
EmsOf(M, i, own) == LET t == FuelOf(i, own) IN UNION {UNION {Range(f.ems) : f \in {f \in Range(M.fuels) : f.name = t[k].v}} : k \in InUse(M, t)}
EmsGen(M, i, g) == EmsOf(M, i, g.fuel)
EmsCon(M, i, c) == EmsOf(M, i, c.fuel)
EmsVent(v) == Range(Names(v.ems))
EmsInst(M, i) == UNION {EmsGen(M, i, g) : g \in Range(i.gens)} \cup UNION {EmsCon(M, i, c) : c \in Range(LiveOf(M, i.cons))} \cup UNION {EmsVent(v) : v \in Range(i.vents)}
EmsAll(M) == UNION {EmsInst(M, i) : i \in Range(M.insts)}

Row(type, name, parent, level, ems, unit) == [type |-> type, name |-> name, parent |-> parent, level |-> level, ems |-> ems, unit |-> unit]
Rows(M) ==
  <<Row("ASSET", M.name, "", "ASSET", EmsAll(M), "Sm3/d")>>
  \o Cat2([k \in DOMAIN M.insts |-> LET i == M.insts[k] IN
       <<Row("INSTALLATION", i.name, M.name, "INSTALLATION", EmsInst(M, i), "Sm3/d")>>
       \o Cat2(Map(i.gens, LAMBDA g : <<Row("GENERATOR_SET", g.name, i.name, "GENERATOR_SET", EmsGen(M, i, g), "Sm3/d")>>
                                      \o Map(LiveOf(M, g.cons), LAMBDA c : Row(TypeOf(c), c.name, g.name, LevelOf(c), {}, "MW"))))
       \o Map(LiveOf(M, i.cons), LAMBDA c : Row(TypeOf(c), c.name, i.name, LevelOf(c), EmsCon(M, i, c), "Sm3/d"))
       \o Map(i.vents, LAMBDA v : Row("VENTING_EMITTER", v.name, i.name, "CONSUMER", EmsVent(v), "Sm3/d"))])

\* a system has a part per consumer of it and entry in use
Kind(type) == CASE type = "PUMP_SYSTEM" -> "PUMP" [] type = "COMPRESSOR_SYSTEM" -> "COMPRESSOR"
Parts(M) == Cat2(Map(LiveOf(M, Cons(M)), LAMBDA c :
  Cat2([k \in DOMAIN c.use |-> IF k \notin InUse(M, c.use) THEN <<>>
     ELSE IF TypeOf(c) \notin Systems THEN <<[type |-> TypeOf(c), name |-> c.name, parent |-> c.name]>>
     ELSE [j \in DOMAIN c.use[k].v.names |-> [type |-> Kind(TypeOf(c)), name |-> c.use[k].v.names[j], parent |-> c.name]]])))

\* --- the flow diagram: nodes <<diagram, node, type>>, edges <<diagram, from, to, flow>> ------------------------------------------------
Shown(t) == CASE t = "GENERIC" -> "direct" [] t = "COMPRESSOR" -> "compressor" [] t = "PUMP" -> "pump" [] t = "COMPRESSOR_SYSTEM" -> "compressor-system" [] t = "PUMP_SYSTEM" -> "pump-system"
Filled(M, i) == FuelUsers(M, i) # <<>> \/ i.vents # <<>>
Nodes(M) ==
  <<<<"Area", "Fuel", "input-output-node">>, <<"Area", "Emission", "input-output-node">>>> \o Map(M.insts, LAMBDA i : <<"Area", i.name, "installation">>)
  \o Cat2(Map(M.insts, LAMBDA i : IF ~Filled(M, i) THEN <<>> ELSE
       <<<<i.name, "Fuel", "input-output-node">>, <<i.name, "Emission", "input-output-node">>>> \o Map(i.gens, LAMBDA g : <<i.name, g.name, "generator">>)
       \o Cat2(Map(i.gens, LAMBDA g : Map(LiveOf(M, g.cons), LAMBDA c : <<i.name, c.name, Shown(TypeOf(c))>>)))
       \o Map(LiveOf(M, i.cons), LAMBDA c : <<i.name, c.name, Shown(TypeOf(c))>>) \o Map(i.vents, LAMBDA v : <<i.name, v.name, "direct">>)))
Edges(M) ==
  Cat2(Map(M.insts, LAMBDA i : <<<<"Area", "Fuel", i.name, "fuel-flow">>, <<"Area", i.name, "Emission", "emission-flow">>>>
       \o Map(FuelUsers(M, i), LAMBDA c : <<i.name, "Fuel", c.name, "fuel-flow">>) \o Map(FuelUsers(M, i) \o i.vents, LAMBDA c : <<i.name, c.name, "Emission", "emission-flow">>)
       \o Cat2(Map(i.gens, LAMBDA g : Map(LiveOf(M, g.cons), LAMBDA c : <<i.name, g.name, c.name, "electricity-flow">>)))))
=============================================================================
