----------------------------- MODULE HistTrace -----------------------------
(* Clauses on recorded histories, shared by several trace modules.         *)
EXTENDS TraceBase, Histories

Single(e) == IF Has(e, "single") THEN e.single ELSE ~IsX64(e)
\* relative tolerance of a star formation rate
SfrTolOf(single, gal) ==
    IF ~single THEN R("2e-9") (+) (R("4e-14") (/) (FPow10(gal[6]) (/) R("12.0")))
    ELSE R("5e-3") (+) (R("4e-6") (/) (FPow10(gal[6]) (/) R("12.0")))
SumTol(e, n) == IF Single(e) THEN R("1e-5") (+) (R("2e-6") (.) FInt(n)) ELSE R("1e-10")

AbsSeq(v) == LET f(i) == FAbs(v[i]) IN Vec(Len(v), f)
\* out is the running integral of rates fs over ts
CumClose(e, ts, fs, out) ==
    LET want == CumMass(ts, fs)
        scale == CumMass(ts, AbsSeq(fs))
        tol == SumTol(e, Len(ts))
    IN \A i \in 1..Len(ts) : Close(out[i], want[i], FZero, (tol (.) scale[i]) (+) R("1e-30"))

SfhClose(e, gal, mah, ts, lgt0, fb, out) ==
    \A i \in 1..Len(ts) : Close(out[i], Sfr(gal, mah, ts[i], lgt0, fb), SfrTolOf(Single(e), gal), R("1e-20"))
=============================================================================
