----------------------------- MODULE Trace_C06 -----------------------------
EXTENDS HistTrace
\* rounding: of the masses, and of t - delay times the local slope
Eps(e) == IF IsX64(e) THEN R("4e-15") ELSE R("1e-6")
MaxSlope(ts, ms) == IF Len(ts) = 1 THEN FZero ELSE
    LET s(i) == FAbs((ms[i+1] (-) ms[i]) (/) (ts[i+1] (-) ts[i])) IN FMaxRange(s, 1, Len(ts) - 1)
Average(e) ==
    LET n == Len(e.ts)
        want == Fstar(e.ts, e.ms, e.delay)
        slope == MaxSlope(e.ts, e.ms)
        atol(i) == (Eps(e) (.) (FAbs(e.ms[n]) (+) (slope (.) (e.ts[i] (+) e.delay)))) (/) (e.delay (.) YR_PER_GYR)
    IN Then(Cl("shape", IsVec(e.out, n)),
        Cl("non_negative", \A i \in 1..n : FZero \preceq e.out[i])
        \cup Cl("value", \A i \in 1..n : Close(e.out[i], want[i], R("4") (.) Eps(e), atol(i) (+) R("1e-30")))
        \cup (IF Has(e, "rate") THEN Cl("constant_rate", \A i \in 1..n :
                e.ts[1] \preceq (e.ts[i] (-) e.delay) => Close(e.out[i], e.rate, R("8") (.) Eps(e), FTwo (.) atol(i))) ELSE {}))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "fstar" -> Average(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
