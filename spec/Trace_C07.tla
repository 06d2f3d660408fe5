----------------------------- MODULE Trace_C07 -----------------------------
(* Recorded gas histories and time cells.                                  *)
EXTENDS HistTrace
GasTol(e) == IF IsX64(e) THEN R("2e-9") ELSE R("2e-3")
Eps(e) == IF IsX64(e) THEN R("1e-13") ELSE R("2e-6")
Gas(e) ==
    LET n == Len(e.ts)
        acc(i) == e.fb (.) Dmhdt(e.mah, e.ts[i], e.lgt0)
        gin == CumMass(e.ts, Vec(n, acc))
        tol == GasTol(e)
        scale(i) == FAbs(gin[i]) (+) FAbs(e.smh[i])
        dt == DtTable(e.ts)
        dg == DtTable(e.mgash)
        top(i) == LET a == IF i = 1 THEN 1 ELSE i - 1  b == IF i = n THEN n ELSE i + 1
                      m(j) == FAbs(e.mgash[j]) IN FMaxRange(m, a, b)
        \* rounding of the differences of masses and of times
        rtol(i) == R("20") (.) (Eps(e) (.) ((e.ts[i] (/) dt[i]) (+) FOne))
    IN Then(Cl("fields", e.fields = <<"sfh", "smh", "dmgash", "mgash">>)
            \cup Cl("shape", IsVec(e.sfh, n) /\ IsVec(e.smh, n) /\ IsVec(e.dmgash, n) /\ IsVec(e.mgash, n)),
         Cl("finite", AllFin(e.sfh) /\ AllFin(e.smh) /\ AllFin(e.mgash) /\ AllFin(e.dmgash))
         \cup Cl("sfh", SfhClose(e, e.gal, e.mah, e.ts, e.lgt0, e.fb, e.sfh))
         \cup Cl("same_sfh", VecClose(e.sfh, e.sfh2, SfrTolOf(Single(e), e.gal), R("1e-20")))
         \cup Cl("same_smh", \A i \in 1..n : Close(e.smh[i], e.smh2[i], SfrTolOf(Single(e), e.gal), R("1e-12") (.) e.smh2[n]))
         \cup Cl("smh", CumClose(e, e.ts, e.sfh, e.smh))
         \cup Cl("mgas", \A i \in 1..n : Close(e.mgash[i] (+) e.smh[i], gin[i], tol, (Eps(e) (.) scale(i)) (+) R("1e-25")))
         \cup Cl("rate", \A i \in 1..n :
                Close(e.dmgash[i], (dg[i] (/) dt[i]) (/) YR_PER_GYR, rtol(i),
                      ((R("20") (.) Eps(e)) (.) (top(i) (/) (dt[i] (.) YR_PER_GYR))) (+) R("1e-30"))))
\* cells of a table; `eps` from the narrower of the table's and the mode's type
Cells(e) ==
    LET n == Len(e.ts)  dt == DtTable(e.ts)
        eps == IF e.single THEN R("1e-6") ELSE R("1e-14")
        top == FMax(FAbs(e.ts[1]), FAbs(e.ts[n]))
        atol == eps (.) top
    IN Then(Cl("shape", IsVec(e.out, n)),
        Cl("cells", \A i \in 1..n : Close(e.out[i], dt[i], FZero, atol))
        \cup Cl("tile", LET first == e.ts[1] (-) (FHalf (.) (e.ts[2] (-) e.ts[1]))
                            last == e.ts[n] (+) (FHalf (.) dt[n - 1])
                        IN Close(FSum(e.out), last (-) first, FZero, FInt(n) (.) atol)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op \in {"gas", "gas_row"} -> Gas(e)
           [] e.op = "cells" -> Cells(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
