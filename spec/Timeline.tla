------------------------------ MODULE Timeline ------------------------------
(* Time in an eCalc model.  Instants are whole minutes since 1900-01-01.  A temporal value is a
   sequence of [t |-> instant, v |-> value]; an entry is in force from its instant until the next
   later entry.  A value that is not temporal has one entry at the instant Always.               *)
EXTENDS Num, FiniteSets

Always == -2000000000

Started(tm, t) == {k \in DOMAIN tm : tm[k].t <= t}
Defined(tm, t) == Started(tm, t) # {}
\* The entry in force at t (only when Defined).
InForce(tm, t) == tm[CHOOSE k \in Started(tm, t) : \A j \in Started(tm, t) : tm[j].t <= tm[k].t].v

DateKeys(tm) == {tm[k].t : k \in DOMAIN tm} \ {Always}

\* The global time vector: start, end and every relevant date strictly between them, in order, once.
TimeVector(start, end, dates) == SortInts({start, end} \cup {d \in dates : start < d /\ d < end})

Starts(tv) == SubSeq(tv, 1, Len(tv) - 1)
Ends(tv) == SubSeq(tv, 2, Len(tv))
\* Length of period i in days.
Days(tv, i) == RDiv(RInt(tv[i + 1] - tv[i]), "1440")

(* ---- time series read from resources, fitted to the time vector ---- *)
\* s = [t |-> instants, v |-> values, interp |-> "RIGHT"|"LEFT"|"LINEAR", extrap |-> BOOLEAN]; any row order.
At(s, x) == s.v[CHOOSE k \in DOMAIN s.t : s.t[k] = x]
Fit(s, t) ==
  LET D == {s.t[k] : k \in DOMAIN s.t}
      B == {d \in D : d <= t}
      A == {d \in D : d >= t}
      lo == CHOOSE d \in B : \A e \in B : e <= d
      hi == CHOOSE d \in A : \A e \in A : e >= d
  IN IF B = {} THEN Zero                                     \* before the data: nothing
     ELSE IF A = {} THEN (IF s.extrap THEN At(s, lo) ELSE Zero)   \* after the data
     ELSE IF lo = hi THEN At(s, lo)
     ELSE IF s.interp = "RIGHT" THEN At(s, lo)
     ELSE IF s.interp = "LEFT" THEN At(s, hi)
     ELSE LET w == RDiv(RInt(t - lo), RInt(hi - lo))
          IN RAdd(At(s, lo), RMul(w, RSub(At(s, hi), At(s, lo))))
=============================================================================
