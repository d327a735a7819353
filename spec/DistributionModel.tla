------------------------- MODULE DistributionModel -------------------------
(* Sharing as it happens: item by item, each after those that overflow into it.  Whatever the order, it ends with the share the
   items are due; nothing is lost on the way; every ending is a test for the program.                                          *)
EXTENDS Distribution, Json
CONSTANTS N, Own, Cap, Emit
VARIABLES own, cap, to, over, out     \* over[i] : what has come to item i from others; out[i] : what it keeps, "none" before its turn
vars == <<own, cap, to, over, out>>
Init == /\ own \in [1..N -> Own] /\ cap \in [1..N -> Cap]
        /\ to \in {t \in [1..N -> 0..N] : ~Cyclic(t)}
        /\ over = [i \in 1..N |-> Zero] /\ out = [i \in 1..N |-> "none"]
Ready(i) == out[i] = "none" /\ \A j \in 1..N : to[j] = i => out[j] # "none"
Serve(i) == LET x == RAdd(own[i], over[i])
                kept == IF to[i] # 0 /\ RLt(cap[i], x) THEN cap[i] ELSE x
            IN /\ Ready(i)
               /\ out' = [out EXCEPT ![i] = kept]
               /\ over' = IF to[i] = 0 THEN over ELSE [over EXCEPT ![to[i]] = RAdd(@, RSub(x, kept))]
               /\ UNCHANGED <<own, cap, to>>
Done == \A i \in 1..N : out[i] # "none"
Next == /\ ~Done
        /\ \E i \in 1..N : Serve(i)
        /\ (Emit /\ \A i \in 1..N : out'[i] # "none") => PrintT("CASE " \o ToJson([own |-> own, cap |-> cap, to |-> to, out |-> out']))
Total(f) == RSum([i \in 1..N |-> f[i]])
\* nothing is lost: what is kept, what waits at an item and what has not come yet is what there was
Conserved == REq(Total(own), RSum([i \in 1..N |-> IF out[i] = "none" THEN RAdd(own[i], over[i]) ELSE out[i]]))
Due == Done => out = Share(own, cap, to)
NotAbove == \A i \in 1..N : (out[i] # "none" /\ to[i] # 0) => RLe(out[i], cap[i])
\* an item passes on only what is more than it can take
NoWaste == \A i \in 1..N : (out[i] # "none" /\ to[i] # 0 /\ RLt(out[i], cap[i])) => REq(out[i], RAdd(own[i], over[i]))
Goes == <>Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
