------------------------- MODULE FluidServiceModel -------------------------
(* Every short history of the service: its invariants, and each history as a test for the program. *)
EXTENDS FluidService, TLC, Json, IOUtils
CONSTANTS Depth, Emit
Keys == {<<"PT", 1, "30", "300">>, <<"PT", 2, "30", "300">>, <<"PH", 1, "30", "600000">>}
Op(o) == [o |-> o, key |-> <<>>, fault |-> "", n |-> 0]
Ops == {Op("start"), Op("stop"), Op("leave"), Op("reset"), Op("clear"), [Op("sizes") EXCEPT !.n = 0], [Op("sizes") EXCEPT !.n = 1], [Op("sizes") EXCEPT !.n = 2]}
       \cup {[Op("flash") EXCEPT !.key = k, !.fault = f] : k \in Keys, f \in {""}} \cup {[Op("flash") EXCEPT !.key = <<"PT", 1, "30", "300">>, !.fault = "raise"]}
After(s, op) ==
  CASE op.o = "start" -> Initialize(s, "py4j")
    [] op.o = "stop" -> Shutdown(s)
    [] op.o = "leave" -> Leave(s)
    [] op.o = "reset" -> Reset(s)
    [] op.o = "clear" -> Answer(Forget(s), Ok)
    [] op.o = "sizes" -> ConfigureSizes(s, 2, op.n)
    [] op.o = "flash" -> LET a == Flash(s, op.key, op.fault = "raise") IN Answer(a.s, a.k)
VARIABLES s, h
Init == s = Start /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E op \in Ops : /\ s' = After(s, op).s
                           /\ h' = Append(h, op)
        /\ (Emit /\ Len(h') = Depth) => PrintT("HIST " \o ToJson(h'))
Invariant == NothingStale(s) /\ WithinSize(s) /\ OneEntryPerState(s)
\* an answer always comes from the process that runs now
Fresh == \A k \in Keys : LET a == Flash(s, k, FALSE) IN a.k = Ok => a.v = s.gen /\ s.kind # "none"
View == <<s, IF Emit THEN h ELSE <<Len(h)>> >>
=============================================================================
