---------------------------- MODULE ExportTrace ----------------------------
(* Recorded prognosis exports and emission intensities of evaluated models (M, o as in ModelTrace; freq the reporting frequency;
   exp the files of each installation; int the intensities).                                                              *)
EXTENDS Export, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Fails(name, ok) == IF ok THEN {} ELSE {name}

FileOk(e, k, table, f, label) ==
  LET in == e.M.inst[k] o == e.o.inst[k] tv == e.o.tv st == Starts(tv) D == ReportDates(tv, e.freq)
      C == Columns(table, in.cat) where == label \o " of " \o in.name
  IN Fails(where \o ": columns", f.ids = <<"forecastYear", "forecastMonth">> \o [j \in Dom(C) |-> C[j].id])
     \cup Fails(where \o ": headings", f.titles = <<"Years", "Months">> \o [j \in Dom(C) |-> Heading(C[j])])
     \cup Fails(where \o ": one row per period, with its year and month",
            /\ Len(f.rows) = Len(D) - 1
            /\ \A i \in Dom(f.rows) : f.rows[i].y = Year(D[i]) /\ f.rows[i].m = Month(D[i]) /\ Len(f.rows[i].v) = Len(C))
     \cup IF Len(f.rows) # Len(D) - 1 \/ (\E i \in Dom(f.rows) : Len(f.rows[i].v) # Len(C)) THEN {} ELSE
          UNION {LET am == Amount(e.M, k, o, e.o.vars, o.c.reg, C[j], st)
                 IN Fails(where \o ": column " \o C[j].id, \A i \in Dom(f.rows) : Written(f.rows[i].v[j], Reported(C[j], am, tv, D[i], D[i + 1]))) : j \in Dom(C)}
ExportsOk(e) == UNION {FileOk(e, k, LTP, e.exp[k].ltp, "LTP") \cup FileOk(e, k, STP, e.exp[k].stp, "STP") : k \in Dom(e.M.inst)}

Co2(e) == LET a == e.o.asset I == {i \in Dom(a.em) : Lower(a.em[i].name) = "co2"}
          IN IF I = {} THEN <<>> ELSE CalRate(a.em[CHOOSE i \in I : TRUE].rate)
IntensitiesOk(e) ==
  LET tv == e.o.tv D == ReportDates(tv, e.freq) n == Len(D) - 1 co2 == Co2(e) hc == CalRate(e.o.asset.hc) r == e.int
      S == Starts(D) E == Ends(D)
  IN IF co2 = <<>> THEN Fails("no intensity without CO2", r = <<>>)
     ELSE IF Len(r) # 1 THEN {"one intensity, of CO2"}
     ELSE LET x == r[1]
          IN Fails("intensity of co2, on the reported periods",
                 /\ Lower(x.name) = "co2" /\ x.s = S /\ x.e = E
                 /\ Len(x.sm3) = n /\ Len(x.boe) = n /\ x.unit_sm3 = "kg/Sm3" /\ x.unit_boe = "kg/BOE")
             \cup Fails("cumulative intensity per Sm3", \A i \in 1..n : IntensityOk(x.sm3[i], co2, hc, tv, tv[1], D[i + 1], One))
             \cup Fails("cumulative intensity per BOE", \A i \in 1..n : IntensityOk(x.boe[i], co2, hc, tv, tv[1], D[i + 1], "629/100"))
             \cup Fails("yearly intensity only in yearly reports", (e.freq = "YEAR") <=> (x.ysm3 # <<>> /\ x.yboe # <<>>))
             \cup IF x.ysm3 = <<>> THEN {} ELSE
                  Fails("yearly intensity per Sm3", Len(x.ysm3) = n /\ \A i \in 1..n : IntensityOk(x.ysm3[i], co2, hc, tv, D[i], D[i + 1], One))
                  \cup Fails("yearly intensity per BOE", Len(x.yboe) = n /\ \A i \in 1..n : IntensityOk(x.yboe[i], co2, hc, tv, D[i], D[i + 1], "629/100"))

Verdict(e) == (IF "export" \in Range(e.want) THEN ExportsOk(e) ELSE {}) \cup (IF "intensity" \in Range(e.want) THEN IntensitiesOk(e) ELSE {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Verdict(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", l, b>>)
             /\ l' = l + 1
=============================================================================
