----------------------------- MODULE Trace_C01 -----------------------------
(* Star formation rates: every recorded rate is the model's at its time.   *)
EXTENDS TraceBase, Galaxy

\* relative tolerance: float32 rounding is amplified by narrow quenching events
SfrTol(e, gal) ==
    IF ~e.single THEN R("2e-9") (+) (R("4e-14") (/) (FPow10(gal[6]) (/) R("12.0")))
    ELSE R("5e-3") (+) (R("4e-6") (/) (FPow10(gal[6]) (/) R("12.0")))

\* which table entries the trace carries (large tables are sampled)
SfhClauses(e) ==
    LET n == Len(e.ts) IN
    Then(Cl("shape", e.nout = e.nin /\ IsVec(e.out, n)),
        Cl("finite", e.nfinite = e.nin /\ AllFin(e.out))
        \cup Cl("floor", FGe(e.minout, Prec(e, SFR_MIN)) /\ \A i \in 1..n : FGe(e.out[i], Prec(e, SFR_MIN)))
        \cup Cl("value", \A i \in 1..n :
                Close(e.out[i], Sfr(e.gal, e.mah, e.ts[i], e.lgt0, e.fb), SfrTol(e, e.gal), R("1e-20"))))

\* asking for other times as well does not change an entry
LocalClauses(e) == Cl("locality", VecClose(e.out, e.alone, IF ~e.single THEN R("1e-10") ELSE SfrTol(e, e.gal), R("1e-20")))

Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "sfh" -> SfhClauses(e)
           [] e.op = "sfh_local" -> LocalClauses(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
