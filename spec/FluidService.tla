---------------------------- MODULE FluidService ----------------------------
(* The service that answers for fluids: one engine process, one service object, one memory of answers.
   s = [kind, gen, config, exit, made, sizes, memory, log]
     kind   "none", "py4j" or "jpype" : the engine in use; gen : how many were started
     config <<>> or <<[mem, exit]>> for the next py4j engine; exit : whether leaving shuts the present one down; mem : its heap
     made   whether the service object exists; sizes : <<>> or <<[ref, flash]>> for it
     memory <<>> or <<cache of the flashes>>; the keys are <<"PT"|"PH", model, pressure, temperature or enthalpy>>         *)
EXTENDS Cache, Integers, Sequences
Start == [kind |-> "none", gen |-> 0, config |-> <<>>, exit |-> TRUE, mem |-> "", made |-> FALSE, sizes |-> <<>>, memory |-> <<>>]
DefaultMemory == "2G"
DefaultFlashSize == 100000

Ok == "ok"
Answer(s, k) == [s |-> s, k |-> k]

Initialize(s, kind) ==
  IF s.kind = "none"
  THEN LET c == IF s.config = <<>> THEN [mem |-> DefaultMemory, exit |-> TRUE] ELSE s.config[1]
       IN Answer([s EXCEPT !.kind = kind, !.gen = @ + 1, !.exit = (kind = "py4j" /\ c.exit), !.mem = IF kind = "py4j" THEN c.mem ELSE ""], Ok)
  ELSE Answer(s, IF s.kind = kind THEN Ok ELSE "ProgrammingError")
Forget(s) == [s EXCEPT !.memory = IF s.memory = <<>> THEN <<>> ELSE <<Emptied(s.memory[1])>>]
\* Ending the Java process forgets all it was asked, for what is remembered may live in it.
Shutdown(s) == IF s.kind = "none" THEN Answer(s, Ok)
               ELSE Answer([Forget(s) EXCEPT !.kind = IF s.kind = "py4j" THEN "none" ELSE "jpype"], Ok)
Leave(s) == IF s.kind = "py4j" /\ s.exit THEN Shutdown(s) ELSE Answer(s, Ok)
ConfigureEngine(s, mem, exit, valid) ==
  IF ~valid THEN Answer(s, "ValueError")
  ELSE IF s.kind # "none" THEN Answer(s, "RuntimeError") ELSE Answer([s EXCEPT !.config = <<[mem |-> mem, exit |-> exit]>>], Ok)
ResetEngine(s) == Answer([s EXCEPT !.config = <<>>], Ok)
ConfigureSizes(s, ref, flash) ==
  IF s.made THEN Answer(s, "RuntimeError") ELSE Answer([s EXCEPT !.sizes = <<[ref |-> ref, flash |-> flash]>>], Ok)
\* A memory that exists already keeps its size.
Instance(s) ==
  IF s.made THEN s
  ELSE [s EXCEPT !.made = TRUE,
                 !.memory = IF s.memory # <<>> THEN s.memory
                            ELSE <<EmptyCache(IF s.sizes = <<>> THEN DefaultFlashSize ELSE s.sizes[1].flash)>>]
Reset(s) == Answer([s EXCEPT !.made = FALSE, !.sizes = <<>>], Ok)

\* A flash is answered from memory, or by the engine; a flash that fails or ends in the wrong state is not remembered.
Flash(s0, key, fails) ==
  LET s == Instance(s0) c == Looked(s.memory[1], key) hit == Holds(s.memory[1], key)
  IN IF hit THEN [s |-> [s EXCEPT !.memory = <<c>>], k |-> Ok, v |-> ValueAt(s.memory[1], key)]
     ELSE IF s.kind = "none" THEN [s |-> [s EXCEPT !.memory = <<c>>], k |-> "ProgrammingError", v |-> 0]
     ELSE IF fails THEN [s |-> [s EXCEPT !.memory = <<c>>], k |-> "failed", v |-> 0]
     ELSE [s |-> [s EXCEPT !.memory = <<Remembered(c, key, s.gen)>>], k |-> Ok, v |-> s.gen]

\* Everything remembered was answered by the process that runs now.
NothingStale(s) == s.memory # <<>> => \A i \in 1..Len(s.memory[1].held) : s.memory[1].held[i].v = s.gen /\ s.kind # "none"
WithinSize(s) == s.memory # <<>> => Len(s.memory[1].held) <= s.memory[1].max
OneEntryPerState(s) ==
  s.memory # <<>> => \A i, j \in 1..Len(s.memory[1].held) : i # j => s.memory[1].held[i].k # s.memory[1].held[j].k
=============================================================================
