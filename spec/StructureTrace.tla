--------------------------- MODULE StructureTrace ---------------------------
(* Models that were run: e.M the model, e.rows and e.parts the components and models of the results, e.nodes and e.edges of the flow diagram
   the run wrote, e.begin and e.end the years it is for, e.closed whether every edge is between nodes of its own diagram.             *)
EXTENDS Structure, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}
Verdict(e) ==
  LET rows == [k \in DOMAIN e.rows |-> [e.rows[k] EXCEPT !.ems = Range(@)]]
      want == Rows(e.M)
      Bare(r) == [r EXCEPT !.ems = {}]
  IN Fails("components", Bag(Map(rows, Bare)) = Bag(Map(want, Bare)))
     \cup Fails("emissions of a component", Bag(rows) = Bag(want) \/ Bag(Map(rows, Bare)) # Bag(Map(want, Bare)))
     \cup Fails("no emission twice", \A r \in Range(e.rows) : Cardinality(Range(r.ems)) = Len(r.ems))
     \cup Fails("models", Bag(e.parts) = Bag(Parts(e.M)))
     \cup Fails("nodes of the diagram", Bag(e.nodes) = Bag(Nodes(e.M)))
     \cup Fails("edges of the diagram", e.closed /\ Bag(e.edges) = Bag(Edges(e.M)))
     \cup Fails("years of the diagram", (e.M.start # 0 => e.begin = e.M.start) /\ e.end = e.M.end)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
