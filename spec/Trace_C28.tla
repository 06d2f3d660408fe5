------------------------------ MODULE Trace_C28 ------------------------------
EXTENDS TraceBase, Helpers
Eps(e) == IF e.single THEN R("3e-6") ELSE R("1e-13")
Square(m, n) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
Mat(f(_, _), n) == \A i, j \in 1..n : f(i, j)
Corr(e) ==
    LET n == Len(e.cov)  want == CorrOf(e.cov)  tol == R("8.0") (.) Eps(e) IN
    Then(Cl("shape", Square(e.corr, n)),
         LET formula(i, j) == Close(e.corr[i][j], want[i][j], tol, FZero)
             zeros(i, j) == FEq(e.cov[i][j], FZero) => FEq(e.corr[i][j], FZero)
             unit(i, j) == i = j => Close(e.corr[i][j], FOne, tol, FZero)
         IN Cl("correlation", Mat(formula, n)) \cup Cl("zero_stays_zero", Mat(zeros, n)) \cup Cl("unit_diagonal", Mat(unit, n)))
Cov(e) ==
    LET n == Len(e.corr)  want == CovOf(e.corr, e.sig)  tol == R("16.0") (.) Eps(e) IN
    Then(Cl("shape", Square(e.cov, n)),
         LET formula(i, j) == Close(e.cov[i][j], want[i][j], tol, FZero)
             zeros(i, j) == FEq(e.corr[i][j], FZero) => FEq(e.cov[i][j], FZero)
             inverse(i, j) == Close(e.cov[i][j], e.orig[i][j], tol, FZero)
         IN Cl("covariance", Mat(formula, n)) \cup Cl("zero_stays_zero", Mat(zeros, n)) \cup Cl("inverse", Mat(inverse, n)))
CovCorr(e) ==
    LET n == Len(e.corr)  want == CovOf(e.corr, e.sig)  tol == R("16.0") (.) Eps(e) IN
    Then(Cl("shape", Square(e.cov, n) /\ Square(e.back, n)),
         LET formula(i, j) == Close(e.cov[i][j], want[i][j], tol, FZero)
             inverse(i, j) == Close(e.back[i][j], e.corr[i][j], tol, FZero)
         IN Cl("covariance", Mat(formula, n)) \cup Cl("inverse", Mat(inverse, n)))

\* one interpolated value; rounding of the table's abscissae scales with the slope
InterpOk(e, y, x, xt, yt, i) ==
    LET want == Interp(x, xt, yt)
        slope == FAbs((yt[i+1] (-) yt[i]) (/) (xt[i+1] (-) xt[i]))
        tol == Eps(e) (.) (R("4.0") (.) (FAbs(yt[i]) (+) FAbs(yt[i+1])) (+) (slope (.) FAbs(x)))
    IN Close(y, want, FZero, tol (+) R("1e-30"))
InterpCheck(e) ==
    Then(Cl("shape", Len(e.y) = Len(e.x)),
         Cl("interpolation", \A q \in 1..Len(e.x) : InterpOk(e, e.y[q], e.x[q], e.xt, e.yt, e.idx[q])))
InterpRows(e) ==
    Then(Cl("shape", Len(e.y) = Len(e.x) /\ \A p \in 1..Len(e.x) : Len(e.y[p]) = Len(e.x[p])),
         Cl("interpolation_rows", \A p \in 1..Len(e.x) : \A q \in 1..Len(e.x[p]) : InterpOk(e, e.y[p][q], e.x[p][q], e.xt[p], e.yt, e.idx[p][q])))

CellsCheck(e) ==
    LET n == Len(e.t)  want == DtTable(e.t)  tol == Eps(e) (.) R("8.0") (.) FAbs(e.t[n]) IN
    Then(Cl("shape", Len(e.dt) = n),
         Cl("durations", \A i \in 1..n : Close(e.dt[i], want[i], Eps(e), tol))
         \cup Cl("positive", \A i \in 1..n : FZero \prec e.dt[i])
         \cup Cl("tiling", \A i \in 1..(n - 1) : Close(CellEnds(e.t, e.dt, i), CellStart(e.t, i + 1), FZero, tol))
         \cup Cl("surround", \A i \in 1..n : CellStart(e.t, i) \prec e.t[i] /\ e.t[i] \prec CellEnds(e.t, e.dt, i)))

BroadcastCheck(e) ==
    IF ~Accepts(e.lens) THEN Cl("accepted_unequal_lengths", Has(e, "exc"))
    ELSE IF Has(e, "exc") THEN Raised(e)
    ELSE LET n == IF Common(e.lens) = -1 THEN 0 ELSE Common(e.lens)  k == Len(e.lens) IN
         Then(Cl("count", Len(e.out) = k),
         Then(Cl("shape", \A i \in 1..k : e.shapes[i] = <<n>>),
              Cl("values", \A i \in 1..k : VecSame(e.out[i], Broadcast(e.vals[i], n)))
              \cup Cl("kind", \A i \in 1..k : e.kinds[i] # "b" => e.out_kinds[i] = e.kinds[i])))

SigmoidCheck(e) ==
    LET n == Len(e.x)
        scale == FMax(FAbs(e.lo), FAbs(e.hi))
        \* rounding of k (x - x0) moves the value by its slope there
        tol == Eps(e) (.) ((R("4.0") (.) scale) (+) (FAbs(e.hi (-) e.lo) (.) (FOne (+) (FAbs(e.k) (.) (FAbs(e.x0) (+) FOne)))))
        want(x) == IF e.fam = "poly" THEN SigmoidPoly(x, e.x0, e.k, e.lo, e.hi) ELSE Sigmoid(x, e.x0, e.k, e.lo, e.hi)
        small == Eps(e) (.) R("2.0") (.) scale
        far(s) == R("5e-6") (.) FAbs(e.hi (-) e.lo)
        up == Rising(e.k, e.lo, e.hi)
    IN Then(Cl("shape", Len(e.y) = n),
         Cl("formula", \A i \in 1..n : Close(e.y[i], want(e.x[i]), FZero, tol))
         \cup Cl("between", \A i \in 1..n : Between(e.y[i], e.lo, e.hi, small))
         \cup Cl("monotone", Ordered(e.y, up, small))
         \cup Cl("midpoint", \A i \in 1..n : FEq(e.x[i], e.x0) => Close(e.y[i], FHalf (.) (e.lo (+) e.hi), FZero, small))
         \cup Cl("asymptotes", LET a == IF FZero \prec e.k THEN e.lo ELSE e.hi  b == IF FZero \prec e.k THEN e.hi ELSE e.lo IN
                               Close(e.y[1], a, FZero, tol (+) far(1)) /\ Close(e.y[n], b, FZero, tol (+) far(1))))
InverseCheck(e) ==
    LET n == Len(e.y)
        width == FAbs(e.hi (-) e.lo)
        scale == FMax(FAbs(e.lo), FAbs(e.hi))
        \* loss of digits where the interval is narrow beside its position
        rel == Eps(e) (.) R("64.0") (.) (FOne (+) (scale (/) width))
        tolu == (rel (/) FAbs(e.k)) (+) (Eps(e) (.) R("8.0") (.) FAbs(e.x0))
        toly == (rel (.) width) (+) (Eps(e) (.) width (.) FAbs(e.k) (.) R("8.0") (.) FAbs(e.x0))
    IN Then(Cl("shape", Len(e.u) = n /\ Len(e.back) = n),
         Cl("inverse_formula", \A i \in 1..n : Close(e.u[i], InvSigmoid(e.y[i], e.x0, e.k, e.lo, e.hi), FZero, tolu))
         \cup Cl("inverts", \A i \in 1..n : Close(e.back[i], e.y[i], FZero, toly)))

LineCheck(e) ==
    LET n == Len(e.x)
        width == e.hi (-) e.lo
        scale == FMax(FAbs(e.lo), FAbs(e.hi))
        raw(x) == e.y0 (+) (e.m (.) (x (-) e.x0))
        a == R("0.02") (.) (e.y0 (-) e.lo)
        b == R("0.02") (.) (e.hi (-) e.y0)
        round == Eps(e) (.) R("8.0") (.) (scale (+) width)
        \* rounding of the line at this x
        rx(x) == Eps(e) (.) R("8.0") (.) FAbs(e.m) (.) (FAbs(x) (+) FAbs(e.x0))
        away(x) == (e.lo (+) a (+) rx(x)) \prec raw(x) /\ raw(x) \prec (e.hi (-) b (-) rx(x))
    IN Then(Cl("shape", Len(e.y) = n),
       Then(Cl("finite", \A i \in 1..n : FFin(e.y[i])),
         Cl("bounds", \A i \in 1..n : Between(e.y[i], e.lo, e.hi, round))
         \cup Cl("on_the_line", \A i \in 1..n : away(e.x[i]) => Close(e.y[i], raw(e.x[i]), FZero, (R("2e-4") (.) width) (+) round (+) rx(e.x[i])))
         \cup Cl("clipped", \A i \in 1..n :
                (raw(e.x[i]) \prec (e.lo (-) a (-) rx(e.x[i])) => Close(e.y[i], e.lo, FZero, (R("0.011") (.) (e.y0 (-) e.lo)) (+) (R("2e-4") (.) width) (+) round))
                /\ ((e.hi (+) b (+) rx(e.x[i])) \prec raw(e.x[i]) => Close(e.y[i], e.hi, FZero, (R("0.011") (.) (e.hi (-) e.y0)) (+) (R("2e-4") (.) width) (+) round)))))

Rounding(single) == IF single THEN R("1e-6") ELSE R("1e-14")
CdfCheck(e) ==
    LET n == Len(e.x)  tol == Eps(e) (.) (R("64.0") (+) (FAbs(e.m) (/) e.h)) IN
    Then(Cl("shape", Len(e.y) = n),
         Cl("cdf", \A i \in 1..n : Close(e.y[i], TwCdfAt(e.x[i], e.m, e.h), FZero, tol))
         \cup Cl("cdf_monotone", Ordered(e.y, TRUE, tol)) \cup Cl("cdf_range", \A i \in 1..n : Between(e.y[i], FZero, FOne, tol))
         \cup Cl("cdf_ends", Close(e.y[1], FZero, FZero, Rounding(e.single)) /\ Close(e.y[n], FOne, FZero, Rounding(e.single))))
BinCheck(e) == Cl("bin_weight", Close(e.w, TwBin(e.m, e.h, e.lo, e.hi), FZero, Eps(e) (.) (R("64.0") (+) (FAbs(e.m) (/) e.h))))
TrapzCheck(e) ==
    LET n == Len(e.x)
        add(z, i) == Append(z, IF i = 1 THEN FZero ELSE z[i-1] (+) (FHalf (.) ((e.x[i] (-) e.x[i-1]) (.) (e.y[i] (+) e.y[i-1]))))
        want == FoldRange(add, <<>>, 1, n)
        mag(i) == FAbs(e.x[i]) (.) FAbs(e.y[i])
        top(i) == FAbs(e.y[i])
        tol == Eps(e) (.) R("8.0") (.) ((FMaxRange(top, 1, n) (.) (FAbs(e.x[1]) (+) FAbs(e.x[n]) (+) FOne)) (.) R("4.0"))
    IN Then(Cl("shape", Len(e.z) = n), Cl("running_integral", \A i \in 1..n : Close(e.z[i], want[i], Eps(e), tol)))
Check(e) ==
    IF e.op = "broadcast" THEN BroadcastCheck(e) ELSE IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "corr" -> Corr(e)
           [] e.op = "cov" -> Cov(e)
           [] e.op = "covcorr" -> CovCorr(e)
           [] e.op = "interp" -> InterpCheck(e)
           [] e.op = "interp_vmap" -> InterpRows(e)
           [] e.op = "cells" -> CellsCheck(e)
           [] e.op = "sigmoid" -> SigmoidCheck(e)
           [] e.op = "inverse" -> InverseCheck(e)
           [] e.op = "line" -> LineCheck(e)
           [] e.op = "cdf" -> CdfCheck(e)
           [] e.op = "bin" -> BinCheck(e)
           [] e.op = "trapz" -> TrapzCheck(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
