------------------------------- MODULE Output -------------------------------
(* The files a run writes: their names, columns, rows, dates and the precision of their numbers. *)
EXTENDS Rates
LOCAL Sr == INSTANCE Series
Dom(s) == 1..Len(s)

(* ---- which files ---- *)
Files(a, name, insts) ==
  (IF a.csv THEN {name \o ".csv", name \o "_intensity.csv"} ELSE {})
  \cup (IF a.json THEN {name \o "_v3.json", name \o "_run_info.json", name \o "_intensity.json"} ELSE {})
  \cup (IF a.ltp THEN {name \o "." \o insts[k] \o ".ltp.tsv" : k \in Dom(insts)} ELSE {})
  \cup (IF a.stp THEN {name \o "." \o insts[k] \o ".stp.tsv" : k \in Dom(insts)} ELSE {})

(* ---- dates: 0 = 2020-01-31, 1 = 20200131, 2 = 31.01.2020, each with the time of day ---- *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
DateText(t, fmt) ==
  LET y == Sr!YearOf(t)
      mo == CHOOSE m \in 1..12 : Sr!Midnight(y, m) <= t /\ t < Sr!Midnight(y, m) + 1440 * Sr!MonthLen(y, m)
      d == ((t - Sr!Midnight(y, mo)) \div 1440) + 1
      hm == t % 1440
      date == CASE fmt = 0 -> ToString(y) \o "-" \o Pad2(mo) \o "-" \o Pad2(d)
                [] fmt = 1 -> ToString(y) \o Pad2(mo) \o Pad2(d)
                [] fmt = 2 -> Pad2(d) \o "." \o Pad2(mo) \o "." \o ToString(y)
  IN date \o " " \o Pad2(hm \div 60) \o ":" \o Pad2(hm % 60) \o ":00"

(* ---- numbers: to seven significant digits or six decimals; tables with five decimals ---- *)
RECURSIVE HalfUnit(_, _)
\* Half of the last digit kept of a number of size x when seven digits are kept, at most six of them decimals.
HalfUnit(x, d) == IF RLt(x, "10") \/ d = "1/2" THEN d ELSE HalfUnit(RDiv(x, "10"), RMul(d, "10"))
Kept(x) == HalfUnit(RAbs(x), "1/2000000")
Tiny(x) == RMul(RAbs(x), "1/1000000000000")
Shown(text, x, more) == IF ~RFinite(x) THEN text = x
                        ELSE RFinite(text) /\ RLe(RAbs(RSub(text, x)), RAdd(RAdd(Kept(x), more), Tiny(x)))
InJson(text, x) == Shown(text, x, Zero)
InTable(text, x) == Shown(text, x, "1/200000")

(* ---- columns of a table ---- *)
Cell(c) ==
  CASE c.kind = "cum" -> c.unit \o " (cd)"
    [] c.kind = "rate" -> LET x == IF c.rt = "STREAM_DAY" THEN "sd" ELSE "cd"
                          IN CASE c.unit = "MW" -> "MW (" \o x \o ")"
                               [] c.unit = "t/d" -> "t/" \o x
                               [] c.unit = "kg/d" -> "kg/" \o x
                               [] c.unit = "Sm3/d" -> "Sm3/" \o x
                               [] c.unit = "L/d" -> "L/" \o x
                               [] OTHER -> c.unit
    [] OTHER -> c.unit
Heading(c) == c.p \o "." \o c.a \o "[" \o Cell(c) \o "]"
=============================================================================
