----------------------------- MODULE Trace_C15 -----------------------------
EXTENDS TraceBase, Catalog, Histories
H_TNG == R("0.6774")
\* log of the cumulative integral; in single precision the running sum loses
\* small increments
TolLog(e) == IF e.single THEN R("2e-5") ELSE R("1e-10")
Check1(e) ==
    LET n == Len(e.sfh)  nt == Len(e.times)
        want(i) == CumMass(e.times, e.sfh[i])
    IN Then(Cl("rows", Len(e.got_sfh) = n /\ Len(e.got_lgsm) = n /\ Len(e.got_ids) = n /\ (e.has_halo => Len(e.got_lgmh) = n /\ Len(e.got_logmp0) = n))
            \cup Cl("fields", e.nret = (IF e.has_halo THEN 6 ELSE 4)),
       Then(Cl("times", VecSame(e.got_times, e.times)) \cup Cl("ids", e.got_ids = e.ids)
            \cup Cl("sfh", \A i \in 1..n : VecSame(e.got_sfh[i], e.sfh[i])),
         Cl("log_stellar_mass", \A i \in 1..n : Len(e.got_lgsm[i]) = nt /\
              LET c == want(i) IN \A k \in 1..nt : Close(e.got_lgsm[i][k], FLog10(c[k]), FZero, TolLog(e)))
         \cup (IF e.has_halo THEN
                 Cl("halo_history", \A i \in 1..n : LET h == HaloHistory(e.stored[i], H_TNG, e.loader = "tng") IN
                       Len(e.got_lgmh[i]) = nt /\ VecClose(e.got_lgmh[i], h, FZero, IF e.single THEN R("3e-6") ELSE R("1e-12")))
                 \cup Cl("never_decreasing", \A i \in 1..n : NonDecreasing(e.got_lgmh[i]))
                 \cup Cl("present_mass", \A i \in 1..n : FEq(e.got_logmp0[i], e.got_lgmh[i][nt]))
               ELSE {})))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "load" -> Check1(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
