-------------------------------- MODULE Num --------------------------------
(* Derived operators on the rationals of Rat. *)
EXTENDS Rat, TLC

RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
Zero == "0"
One == "1"

\* The tolerance for comparing the implementation's IEEE doubles with exact values.
Rel == "1/1000000000"
Abs == "1/1000000000"
Near(a, b) == RClose(a, b, Rel, Abs)
NearSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i])

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE RAdd(SumTo(f, n - 1), f[n])

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
ZipWith(Op(_, _), s, t) == [i \in 1..Len(s) |-> Op(s[i], t[i])]
ConstSeq(x, n) == [i \in 1..n |-> x]
AddSeq(s, t) == ZipWith(RAdd, s, t)
MulSeq(s, t) == ZipWith(RMul, s, t)

RECURSIVE SumSeqs(_, _)
\* Element-wise sum of a sequence of equally long (length n) sequences.
SumSeqs(ss, n) == IF ss = <<>> THEN ConstSeq(Zero, n)
                  ELSE AddSeq(Head(ss), SumSeqs(Tail(ss), n))
RECURSIVE RunningSum(_)
RunningSum(s) == IF s = <<>> THEN <<>>
                 ELSE LET n == Len(s) p == RunningSum(SubSeq(s, 1, n - 1))
                      IN Append(p, IF n = 1 THEN s[1] ELSE RAdd(p[n - 1], s[n]))
RECURSIVE SortInts(_)
\* The elements of a finite set of integers in increasing order.
SortInts(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN <<m>> \o SortInts(S \ {m})
RECURSIVE MinOf(_), MaxOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(Head(s), MinOf(Tail(s)))
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(Head(s), MaxOf(Tail(s)))
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
