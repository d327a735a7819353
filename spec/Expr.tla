-------------------------------- MODULE Expr --------------------------------
(* eCalc expressions.  An expression is a sequence of tokens [k, v]:
     k = "n" number, "r" reference, "o" operator, "(" or ")".
   Operators bind, tightest first: ^ ; * / ; + - ; == ; != ; < ; > ; <= ; >= .
   All associate to the left except ^.  Division by zero gives 0.  After every operation a value that is not a number becomes 0
   and an infinite one the largest double of that sign, so an expression always has a finite value. *)
EXTENDS Num

MaxDouble == "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368"

Prec == [o \in {"{^}", "{*}", "{/}", "{+}", "{-}", "==", "!=", "<", ">", "<=", ">="} |->
          CASE o = "{^}" -> 24 [] o \in {"{*}", "{/}"} -> 23 [] o \in {"{+}", "{-}"} -> 22
            [] o = "==" -> 16 [] o = "!=" -> 15 [] o = "<" -> 14 [] o = ">" -> 13
            [] o = "<=" -> 12 [] o = ">=" -> 11]

Clean(x) == IF x = "nan" THEN Zero ELSE IF x = "inf" THEN MaxDouble
            ELSE IF x = "-inf" THEN RNeg(MaxDouble)
            ELSE IF RLt(MaxDouble, x) THEN MaxDouble ELSE IF RLt(x, RNeg(MaxDouble)) THEN RNeg(MaxDouble) ELSE x
Bool(b) == IF b THEN One ELSE Zero
Apply(o, a, b) ==
  Clean(CASE o = "{+}" -> RAdd(a, b) [] o = "{-}" -> RSub(a, b) [] o = "{*}" -> RMul(a, b)
          [] o = "{/}" -> IF REq(b, Zero) THEN Zero ELSE RDiv(a, b) [] o = "{^}" -> RPow(a, b)
          [] o = "==" -> Bool(REq(a, b)) [] o = "!=" -> Bool(~REq(a, b))
          [] o = "<" -> Bool(RLt(a, b)) [] o = ">" -> Bool(RLt(b, a))
          [] o = "<=" -> Bool(RLe(a, b)) [] o = ">=" -> Bool(RLe(b, a)))

\* Nesting depth after each token.
RECURSIVE Depth(_, _)
Depth(x, i) == IF i = 0 THEN 0
               ELSE Depth(x, i - 1) + (IF x[i].k = "(" THEN 1 ELSE IF x[i].k = ")" THEN -1 ELSE 0)
\* The top-level operator applied last: loosest binding; rightmost of equals (leftmost for ^).
TopOps(x) == {i \in DOMAIN x : x[i].k = "o" /\ Depth(x, i) = 0}
Loosest(x) == LET O == TopOps(x)
                  L == {i \in O : \A j \in O : Prec[x[i].v] <= Prec[x[j].v]}
                  p == Prec[x[CHOOSE i \in L : TRUE].v]
              IN IF p = 24 THEN CHOOSE i \in L : \A j \in L : i <= j
                 ELSE CHOOSE i \in L : \A j \in L : i >= j

RECURSIVE Eval(_, _, _)
\* The value of x in period i, where env maps each reference to its sequence of values.
Eval(x, env, i) ==
  IF Len(x) = 1 THEN (IF x[1].k = "n" THEN x[1].v ELSE env[x[1].v][i])
  ELSE IF TopOps(x) = {} THEN Eval(SubSeq(x, 2, Len(x) - 1), env, i)   \* ( ... )
  ELSE LET m == Loosest(x)
       IN Apply(x[m].v, Eval(SubSeq(x, 1, m - 1), env, i), Eval(SubSeq(x, m + 1, Len(x)), env, i))

Refs(x) == {x[i].v : i \in {j \in DOMAIN x : x[j].k = "r"}}
\* A well-formed expression: operands and operators alternate and parentheses match.
Operandy(t) == t.k \in {"n", "r"}
WellFormed(x) ==
  /\ Len(x) > 0
  /\ \A i \in DOMAIN x : Depth(x, i) >= 0
  /\ Depth(x, Len(x)) = 0
  /\ Operandy(x[1]) \/ x[1].k = "("
  /\ Operandy(x[Len(x)]) \/ x[Len(x)].k = ")"
  /\ \A i \in 1..(Len(x) - 1) :
        IF Operandy(x[i]) \/ x[i].k = ")" THEN x[i + 1].k \in {"o", ")"}
        ELSE Operandy(x[i + 1]) \/ x[i + 1].k = "("
\* Text that cannot be read as an expression, in whatever notation: too few or too many operands, or loose parentheses.
Count(x, S) == Len(SelectSeq(x, LAMBDA t : t.k \in S))
Malformed(x) ==
  \/ Count(x, {"n", "r"}) # Count(x, {"o"}) + 1
  \/ Depth(x, Len(x)) # 0
  \/ \E i \in DOMAIN x : Depth(x, i) < 0
=============================================================================
