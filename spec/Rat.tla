-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers, encoded as strings in lowest terms ("7", "-3/4"), plus
   "nan", "inf" and "-inf".  TLC's own integers are 32 bit, so the operators are
   evaluated by the module override java/Rat.java (BigInteger arithmetic).  The
   definitions below state what each operator means; they are never evaluated.
   Arguments may also be TLA+ integers.                                        *)
EXTENDS Integers, Sequences

IsNumber(s) == TRUE  \* the encoding of some rational or special value
RAdd(a, b) == CHOOSE s \in STRING : IsNumber(s)   \* a + b
RSub(a, b) == CHOOSE s \in STRING : IsNumber(s)   \* a - b
RMul(a, b) == CHOOSE s \in STRING : IsNumber(s)   \* a * b
RDiv(a, b) == CHOOSE s \in STRING : IsNumber(s)   \* a / b; x/0 is inf, -inf or nan
RNeg(a)    == CHOOSE s \in STRING : IsNumber(s)   \* -a
RInt(i)    == CHOOSE s \in STRING : IsNumber(s)   \* the canonical encoding of i
RAbs(a)    == CHOOSE s \in STRING : IsNumber(s)   \* |a|
RLt(a, b)  == CHOOSE s \in BOOLEAN : TRUE         \* a < b (false on nan)
RLe(a, b)  == CHOOSE s \in BOOLEAN : TRUE         \* a <= b (false on nan)
REq(a, b)  == CHOOSE s \in BOOLEAN : TRUE         \* a = b (false on nan)
RFinite(a) == CHOOSE s \in BOOLEAN : TRUE
RIsNan(a)  == CHOOSE s \in BOOLEAN : TRUE
RFloor(a)  == CHOOSE i \in Int : TRUE             \* floor(a) as an integer
RFloorR(a) == CHOOSE s \in STRING : IsNumber(s)   \* floor(a) as a number
RClose(a, b, rel, abs) == CHOOSE s \in BOOLEAN : TRUE  \* |a-b| <= max(abs, rel*max(|a|,|b|))
RPow(a, b) == CHOOSE s \in STRING : IsNumber(s)   \* a^b (real power)
RSqrt(a)   == CHOOSE s \in STRING : IsNumber(s)
RToStr(a)  == CHOOSE s \in STRING : TRUE          \* decimal rendering, for messages
Lower(s)   == CHOOSE t \in STRING : TRUE          \* the text s in lower case
RSum(q)    == CHOOSE s \in STRING : IsNumber(s)   \* sum of a sequence
=============================================================================
