----------------------------- MODULE Trace_C22 -----------------------------
EXTENDS TraceBase, Hist
Eps(e) == IF IsX64(e) THEN R("1e-12") ELSE R("4e-6")
W(e) == IF Has(e, "w") THEN e.w ELSE Ones(Len(e.pts))
Tol(e) == Eps(e) (.) (AbsSum(W(e)) (+) R("1e-3"))
\* a histogram call: value of every bin
Nd(e) ==
    LET want == NdHist(e.pts, e.sigs, W(e), e.los, e.his) IN
    Then(Cl("shape", IsVec(e.out, Len(e.los))),
         Cl("bin_value", \A b \in 1..Len(e.los) : Close(e.out[b], want[b], Eps(e), Tol(e)))
         \cup Cl("non_negative", (\A p \in 1..Len(W(e)) : FZero \preceq W(e)[p]) => \A b \in 1..Len(e.los) : FNeg(Tol(e)) \preceq e.out[b])
         \* a point whose kernel no bin touches adds nothing, one inside a bin all of its weight
         \cup Cl("covered", e.tiling => Close(FSum(e.out), FSum(W(e)), FZero, Tol(e) (.) R("4.0"))))
\* relations between calls
Vecs(e, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], Eps(e), e.scale (.) Eps(e))
Meta(e) == Cl(e.what, Vecs(e, e.a, e.b))
\* scalar kernels
Rounding(e) == IF IsX64(e) THEN R("1e-14") ELSE R("1e-6")
Cdf(e) ==
    LET n == Len(e.x) IN
    Cl("cdf", \A i \in 1..n : Close(e.cdf[i], TwCdfAt(e.x[i], e.m, e.h), FZero, Eps(e)))
    \cup Cl("cdf_range", \A i \in 1..n : FNeg(Eps(e)) \preceq e.cdf[i] /\ e.cdf[i] \preceq (FOne (+) Eps(e)))
    \cup Cl("cdf_rising", \A i \in 1..(n - 1) : e.cdf[i] \preceq (e.cdf[i + 1] (+) Eps(e)))
    \cup Cl("cdf_saturates", \A i \in 1..n : LET y == (e.x[i] (-) e.m) (/) e.h IN
             (y \prec R("-3.00001") => Close(e.cdf[i], FZero, FZero, Rounding(e))) /\ (R("3.00001") \prec y => Close(e.cdf[i], FOne, FZero, Rounding(e))))
Bins(e) ==
    LET n == Len(e.lo) IN
    Cl("bin_weight", \A i \in 1..n : Close(e.out[i], IF e.point THEN TwBinWeight(e.x, e.h, e.lo[i], e.hi[i]) ELSE TwBin(e.x, e.h, e.lo[i], e.hi[i]), FZero, Eps(e)))
    \cup Cl("bins_add", Close(FSum(e.out), e.whole, FZero, Eps(e) (.) R("4.0")))
Smhm(e) ==
    LET nb == Len(e.edges) - 1
        cnt(b) == LET g(p) == TwBinWeight(e.x[p], e.sig[p], e.edges[b], e.edges[b + 1]) IN FSumRange(g, 1, Len(e.x))
        ymax == LET g(p) == FAbs(e.y[p]) IN FMaxRange(g, 1, Len(e.x))
        ylo == FSeqMin(e.y)
        yhi == FSeqMax(e.y)
    IN Then(Cl("shape", IsVec(e.out, nb)),
            UNION {IF R("1e-2") \prec cnt(b)
                   THEN LET tol == (Eps(e) (.) ymax (.) R("20.0") (.) (FOne (+) FInt(Len(e.x)))) (/) cnt(b) IN
                        Cl("mean", Close(e.out[b], BinMean(e.x, e.sig, e.y, e.edges[b], e.edges[b + 1]), FZero, tol))
                        \cup Cl("mean_between", (ylo (-) tol) \preceq e.out[b] /\ e.out[b] \preceq (yhi (+) tol))
                   ELSE {} : b \in 1..nb})
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "hist" -> Nd(e)
           [] e.op = "meta" -> Meta(e)
           [] e.op = "cdf" -> Cdf(e)
           [] e.op = "bins" -> Bins(e)
           [] e.op = "smhm" -> Smhm(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
