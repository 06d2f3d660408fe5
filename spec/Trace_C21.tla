----------------------------- MODULE Trace_C21 -----------------------------
EXTENDS HistTrace, Population
CodeTol(e) == IF IsX64(e) THEN R("1e-11") ELSE R("5e-4")
SfrTol(e, gal) == SfrTolOf(~IsX64(e), gal)
\* histories of one galaxy: e.ms, e.q parameters; e.sfh_ms, e.sfh_q histories
Hist(e) ==
    LET n == Len(e.ts)
        ok(gal, out) == \A i \in 1..n : Close(out[i], Sfr(gal, e.mah, e.ts[i], e.lgt0, e.fb), SfrTol(e, gal), R("1e-20"))
    IN Then(Cl("shape", IsVec(e.sfh_ms, n) /\ IsVec(e.sfh_q, n) /\ IsVec(e.ms, 8) /\ IsVec(e.q, 8)),
            Cl("history_ms", ok(e.ms, e.sfh_ms)) \cup Cl("history_q", ok(e.q, e.sfh_q)))
\* against the star formation history function given the returned parameters
\* (c_ms, c_q) and against the parameters-only realization (o)
Same3(e) ==
    LET T == CodeTol(e) IN
    Cl("is_sfh_of_ms", Len(e.c_ms) = Len(e.sfh_ms) /\ VecClose(e.sfh_ms, e.c_ms, SfrTol(e, e.ms), R("1e-20")))
    \cup Cl("is_sfh_of_q", Len(e.c_q) = Len(e.sfh_q) /\ VecClose(e.sfh_q, e.c_q, SfrTol(e, e.q), R("1e-20")))
    \cup Cl("params_ms", VecClose(e.ms, e.o.ms, T, T))
    \cup Cl("params_q", VecClose(e.q, e.o.q, T, T))
    \cup Cl("probability", Close(e.frac, e.o.frac, T, T))
    \cup Cl("flag", e.flag = e.o.flag \/ ~FEq(e.frac, e.o.frac))
\* selection: sets a (flag) and b (no flag), one row of eight per galaxy
Sel(e) ==
    LET n == Len(e.flag) IN
    Then(Cl("shape", Len(e.got) = n /\ \A i \in 1..n : Len(e.got[i]) = 8),
         Cl("selected", \A i \in 1..n : VecSame(e.got[i], Select(e.a[i], e.b[i], e.flag[i]))))
SelSfh(e) == Cl("selected_history", \A i \in 1..Len(e.flag) :
                VecClose(e.got[i], Select(e.a[i], e.b[i], e.flag[i]), SfrTol(e, e.gal[i]), R("1e-20")))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "hist" -> Hist(e)
           [] e.op = "same" -> Same3(e)
           [] e.op = "select" -> Sel(e)
           [] e.op = "select_sfh" -> SelSfh(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
