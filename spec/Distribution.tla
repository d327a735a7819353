---------------------------- MODULE Distribution ----------------------------
(* How a stream is shared by parallel items.

   Every item gets its own share first.  What is more than an item can take goes on to the item its overflow leads to; an item
   whose overflow leads nowhere keeps all it gets.  own[i] is the share of item i, cap[i] what it can take, to[i] the item its
   overflow leads to, 0 for nowhere.                                                                                           *)
EXTENDS Num

Items(own) == DOMAIN own
\* overflow must not come back to where it started
RECURSIVE Leads(_, _, _)
Leads(to, i, n) == IF n = 0 THEN {} ELSE IF to[i] = 0 THEN {} ELSE {to[i]} \cup Leads(to, to[i], n - 1)
Cyclic(to) == \E i \in DOMAIN to : i \in Leads(to, i, Len(to))

Taken(cap, to, i, x) == IF to[i] = 0 THEN x ELSE RMin(x, cap[i])
RECURSIVE Gets(_, _, _, _)
Gets(own, cap, to, i) ==
  LET F == {j \in Items(own) : to[j] = i}
      RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN Zero ELSE LET j == CHOOSE j \in S : TRUE
                                             g == Gets(own, cap, to, j)
                                         IN RAdd(RSub(g, Taken(cap, to, j, g)), Sum(S \ {j}))
  IN RAdd(own[i], Sum(F))
Share(own, cap, to) == [i \in Items(own) |-> Taken(cap, to, i, Gets(own, cap, to, i))]

\* of several ways to share, in order of preference, the first that every item can take; if there is none, the last
Fits(cap, rates) == \A i \in DOMAIN cap : RLe(rates[i], cap[i])
FirstFit(cap, ways) == LET F == {k \in DOMAIN ways : Fits(cap, ways[k])}
                       IN IF F = {} THEN Len(ways) ELSE CHOOSE k \in F : \A j \in F : k <= j
=============================================================================
