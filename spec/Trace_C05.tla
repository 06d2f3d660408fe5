----------------------------- MODULE Trace_C05 -----------------------------
EXTENDS HistTrace

\* non-decreasing up to the rounding of sums taken in whatever order
Rises(e, v) == LET eps == IF Single(e) THEN R("4e-6") ELSE R("1e-14") IN
               \A i \in 1..(Len(v) - 1) : (v[i] (.) (FOne (-) eps)) \preceq v[i + 1]
Mass(e) ==
    LET n == Len(e.ts) IN
    Then(Cl("shape", IsVec(e.out, n)),
        Cl("integral", CumClose(e, e.ts, e.fs, e.out))
        \cup Cl("non_decreasing",
              (\A i \in 1..n : FZero \preceq e.fs[i]) /\ (T_BIRTH \preceq e.ts[1]) /\ NonDecreasing(e.ts)
              => FZero \preceq e.out[1] /\ Rises(e, e.out)))
\* mass returned alongside the history
Alongside(e) ==
    LET n == Len(e.ts) IN
    Then(Cl("fields", e.fields = <<"sfh", "smh">>) \cup Cl("shape", IsVec(e.sfh, n) /\ IsVec(e.smh, n)),
        Cl("integral", CumClose(e, e.ts, e.sfh, e.smh))
        \cup Cl("same_rates", VecClose(e.sfh, e.plain, IF Single(e) THEN SfrTolOf(TRUE, e.gal) ELSE R("1e-10"), R("1e-20")))
        \cup Cl("value", SfhClose(e, e.gal, e.mah, e.ts, e.lgt0, e.fb, e.sfh)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "mass" -> Mass(e)
           [] e.op = "alongside" -> Alongside(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
