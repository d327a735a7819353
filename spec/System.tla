-------------------------------- MODULE System --------------------------------
(* Consumer systems: pumps or compressors sharing a duty by prioritised operational settings.

   A unit is [kind |-> "pump", t, u, margin] or [kind |-> "comp", t, a, g] : a chart or a table; g a turbine or <<>>.
   A setting is [rate, s, d, rho, cross] : per unit and period the rates (stream day), pressures and densities; cross[c] is the
   unit to which unit c passes on what exceeds its highest rate, 0 for none.

   A period runs by the first setting in which all units have the capacity, by the last one when there is none.               *)
EXTENDS Pump
T == INSTANCE Sampled

Easier(x) == RMul(x, "1000001/1000000")
\* --- the highest rates --------------------------------------------------------------------------------------------------------
Max0(S) == IF S = {} THEN Zero ELSE T!MaxSet(S)
TableMax(t, s, d) ==
  IF t.r = <<>> THEN T!NoVal
  ELSE IF T!Constant(t.r) THEN t.r[1]
  ELSE IF T!Dims(t) = 1 THEN MaxOf(t.r)
  ELSE LET I == {i \in Dom(t.r) : (T!Varies(t.s) => RLe(t.s[i], s)) /\ (T!Varies(t.d) => RGe(t.d[i], d))}
           here == IF T!Dims(t) = 2
                   THEN IF T!Varies(t.s) THEN (IF T!Within(s, t.s) THEN {T!HighAt(t.s, t.r, s)} ELSE {})
                        ELSE (IF T!Within(d, t.d) THEN {T!HighAt(t.d, t.r, d)} ELSE {})
                   ELSE LET da == RMax(d, T!LowAt(t.s, t.d, T!Clamp(s, t.s))) sa == RMin(s, T!HighAt(t.d, t.s, T!Clamp(da, t.d)))
                        IN T!Heights3(t.s, t.d, t.r, sa, da)
       IN Max0({t.r[i] : i \in I} \cup here)

\* --- capacity -----------------------------------------------------------------------------------------------------------------
CanRun(t, r, s, d) ==
  \/ RLe(r, Zero)
  \/ /\ T!Fixed(t, r, s, d)
     /\ IF T!Dims(t) = 1 THEN T!Eval1(t, r, s, d) # T!NoVal
        ELSE IF T!Dims(t) = 2 THEN T!Point2(t, r, s, d) # <<>> ELSE T!Point3(t, r, s, d) # <<>>
\* energy usage of a table with a known form at a point it can run in
EnergyThere(t, a, r, s, d) ==
  IF RLe(r, Zero) THEN Zero
  ELSE IF T!Dims(t) = 1 THEN T!Eval1(t, r, s, d)
  ELSE LET p == IF T!Dims(t) = 2 THEN T!Point2(t, r, s, d) ELSE T!Point3(t, r, s, d)[1] IN T!Affine(a[1], p[1], p[2], p[3])
\* the turbine limits the rate to where the power is (to its tolerance) its highest
RECURSIVE Limit(_, _, _, _, _, _, _, _)
Limit(t, a, q, lo, hi, s, d, n) ==
  IF n = 0 THEN hi
  ELSE LET m == RDiv(RAdd(lo, hi), "2")
       IN IF RLe(EnergyThere(t, a, m, s, d), q) THEN Limit(t, a, q, m, hi, s, d, n - 1) ELSE Limit(t, a, q, lo, m, s, d, n - 1)
Power(x, r, s, d) == T!Adjusted(x.w, EnergyThere(x.t, x.a, r, s, d))
Largest(g) == MaxOf(g.loads)
Powered(x, R, s, d) == RIsNan(R) \/ ~CanRun(x.t, R, s, d) \/ RLe(Power(x, R, s, d), Largest(x.g[1]))
TurbineMax(x, R, s, d) ==
  IF Powered(x, R, s, d) THEN R
  ELSE LET q == RDiv(RSub(RSub(Largest(x.g[1]), "1/1000"), x.w.c), x.w.f)
       IN Limit(x.t, x.a, q, Zero, R, s, d, 40)
\* too small a turbine for the lowest power of its compressor
Starved(x, R, s, d) == ~Powered(x, R, s, d) /\ ~Powered(x, "1/1000", s, d)
MaxRate(x, s, d, rho) ==
  IF x.kind = "pump" THEN RMul("24", MaxRateAt(x.ch, HeadOf(s, d, rho)))
  ELSE IF x.g = <<>> THEN TableMax(x.t, s, d) ELSE TurbineMax(x, TableMax(x.t, s, d), s, d)

Excess(x, rate, s, d, rho) == LET m == MaxRate(x, s, d, rho) IN IF RIsNan(m) THEN Zero ELSE RMax(Zero, RSub(rate, m))
\* what unit c of setting st passes on in period i
Passed(units, st, c, i) ==
  IF st.cross[c] = 0 THEN Zero
  ELSE IF RLt(st.d[st.cross[c]][i], st.d[c][i]) THEN Zero
  ELSE Excess(units[c], st.rate[c][i], st.s[c][i], st.d[c][i], st.rho[c][i])
AllPassed(units, st, i) == TLCEval([c \in Dom(units) |-> Passed(units, st, c, i)])
\* the rates after the crossovers, p = AllPassed
After(st, p, c, i) == RAdd(RSub(st.rate[c][i], p[c]), RSum([k \in Dom(p) |-> IF st.cross[k] = c THEN p[k] ELSE Zero]))

\* {may unit x be (not) able to handle the point}: both only closer to its limits than doubles tell
TableAble(x, r, s, d) ==
  IF ~CanRun(x.t, r, s, d) THEN {FALSE}
  ELSE IF x.g # <<>> /\ ~Powered(x, r, s, d) THEN {FALSE} ELSE {TRUE}
Able(x, r, s, d, rho) ==
  IF RLe(r, Zero) THEN {TRUE}
  ELSE IF x.kind = "pump" THEN {o.ok : o \in Runs(x.ch, RMul(x.margin, "981/100"), RDiv(r, "24"), HeadOf(s, d, rho), FALSE)}
  ELSE TableAble(x, r, s, d) \cup TableAble(x, T!UpR(x.t, r), T!Down(s), T!Up(d)) \cup TableAble(x, T!DownR(x.t, r), T!Up(s), T!Down(d))
\* a unit that passes on its excess runs at exactly its highest rate, and can
AbleAtMax(x, m, s, d, rho) ==
  IF RLe(m, Zero) THEN Able(x, m, s, d, rho)
  ELSE IF x.kind = "pump"
  THEN IF RLt(Easier(HeadOf(s, d, rho)), Fast(x.ch).h[1]) THEN {TRUE} ELSE Able(x, m, s, d, rho)
  ELSE IF TableAble(x, RDiv(m, "1001/1000"), RDiv(s, "1000001/1000000"), Easier(d)) = {TRUE} THEN {TRUE} ELSE Able(x, m, s, d, rho)
AbleIn(units, st, p, c, i) ==
  LET r == After(st, p, c, i)
  IN IF RLt(Zero, p[c]) THEN AbleAtMax(units[c], r, st.s[c][i], st.d[c][i], st.rho[c][i])
     ELSE Able(units[c], r, st.s[c][i], st.d[c][i], st.rho[c][i])

Outcomes(units, st, i) ==
  LET p == AllPassed(units, st, i) A == TLCEval([c \in Dom(units) |-> AbleIn(units, st, p, c, i)])
  IN (IF \A c \in Dom(units) : TRUE \in A[c] THEN {"serves"} ELSE {}) \cup (IF \E c \in Dom(units) : FALSE \in A[c] THEN {"fails"} ELSE {})
MayServe(units, st, i) == "serves" \in Outcomes(units, st, i)
MayFail(units, st, i) == "fails" \in Outcomes(units, st, i)
\* May the system use setting k in period i?
MayUse(units, settings, k, i) ==
  /\ k \in Dom(settings)
  /\ \A j \in 1..(k - 1) : MayFail(units, settings[j], i)
  /\ k < Len(settings) => MayServe(units, settings[k], i)
===============================================================================
