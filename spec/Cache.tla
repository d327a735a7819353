------------------------------- MODULE Cache -------------------------------
(* A bounded cache that forgets the entry used longest ago, with its statistics.
   c = [max, held, hits, misses, evictions]; held : sequence of [k, v], the one used longest ago first. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Keep(s, P(_)) == SelectSeq(s, P)
EmptyCache(max) == [max |-> max, held |-> <<>>, hits |-> 0, misses |-> 0, evictions |-> 0]
Holds(c, k) == \E i \in 1..Len(c.held) : c.held[i].k = k
ValueAt(c, k) == c.held[CHOOSE i \in 1..Len(c.held) : c.held[i].k = k].v
Used(c, k, v) == Append(Keep(c.held, LAMBDA e : e.k # k), [k |-> k, v |-> v])

Looked(c, k) == IF Holds(c, k) THEN [c EXCEPT !.held = Used(c, k, ValueAt(c, k)), !.hits = @ + 1]
                ELSE [c EXCEPT !.misses = @ + 1]
Remembered(c, k, v) ==
  IF c.max = 0 THEN c
  ELSE LET h == Used(c, k, v) over == IF Len(h) > c.max THEN Len(h) - c.max ELSE 0
       IN [c EXCEPT !.held = SubSeq(h, over + 1, Len(h)), !.evictions = @ + over]
Emptied(c) == EmptyCache(c.max)
=============================================================================
