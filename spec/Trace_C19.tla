----------------------------- MODULE Trace_C19 -----------------------------
EXTENDS PopTrace
Eps(e) == IF IsX64(e) THEN R("1e-12") ELSE R("1e-4")
SlackOf(e, hi) == Eps(e) (.) (FOne (+) FAbs(hi))
InR(e, x, lo, hi) == (lo (-) SlackOf(e, lo)) \preceq x /\ x \preceq (hi (+) SlackOf(e, hi))
\* a covariance matrix against the scatters s and their ranges
CovOk(e, c, s, his) ==
    LET n == 4 IN
    Then(Cl("cov_shape", Len(c) = n /\ \A a \in 1..n : IsVec(c[a], n)),
         Cl("cov_diagonal", \A a, b \in 1..n : a # b => FEq(c[a][b], FZero))
         \cup Then(Cl("cov_finite", \A a \in 1..n : FFin(c[a][a]) /\ FZero \prec c[a][a]),
                   Cl("scatter_range", \A a \in 1..n : InR(e, FSqrt(c[a][a]), StdLo, his[a]))
                   \cup Cl("scatter_value", \A a \in 1..n : Close(FSqrt(c[a][a]), s[a], TolU(e), TolU(e)))))
Point(e) ==
    LET x == e.x  t == e.t
        wms == MeansMs(e.p, x)  wq == MeansQ(e.p, x, t)
        sms == StdsMs(e.p, x)   sq == StdsQ(e.p, x)
    IN Cl("probability_range", /\ FZero \preceq e.frac[1] /\ e.frac[1] \preceq FOne
                                /\ FZero \preceq e.frac[2] /\ e.frac[2] \preceq FOne)
       \cup Cl("fraction_central", Close(e.frac[1], FracQCen(e.p, x, t), FZero, TolF(e)))
       \cup Cl("fraction_satellite", Close(e.frac[2], FracQSat(e.p, x, t), FZero, TolF(e)))
       \cup Cl("mean_ms", Len(e.ms) = 4 /\ AllFin(e.ms) /\ VecClose(e.ms, wms, TolU(e), TolU(e)))
       \cup Cl("mean_q", Len(e.q) = 8 /\ AllFin(e.q) /\ VecClose(e.q, wq, TolU(e), TolU(e)))
       \cup Cl("mean_ms_range", Len(e.ms) = 4 /\ InR(e, e.ms[3], MeanLo.ul, MeanHi.ul) /\ InR(e, e.ms[4], MeanLo.uh, MeanHi.uh))
       \cup Cl("mean_q_range", \A c \in 1..Len(ClippedMeans) : InR(e, e.q[ClippedMeans[c][1]], ClippedMeans[c][2], ClippedMeans[c][3]))
       \cup CovOk(e, e.cov[1], sms, SubSeq(StdHis, 1, 4))
       \cup CovOk(e, e.cov[2], SubSeq(sq, 1, 4), SubSeq(StdHis, 1, 4))
       \cup CovOk(e, e.cov[3], SubSeq(sq, 5, 8), SubSeq(StdHis, 5, 8))
\* outputs before and after one parameter took another value
Touch(e) ==
    \* exactly, being one compiled function
    Cl("touches_only_its_own", \A c \in 1..26 : c # e.owner => FEq(e.after[c], e.before[c]))
    \cup Cl("touched_value", LET w == PopOuts(e.p, e.x, e.t)[e.owner] IN
              IF e.owner <= 2 THEN Close(e.after[e.owner], w, FZero, TolF(e))
              ELSE Close(IF e.owner <= 14 THEN e.after[e.owner] ELSE FSqrt(e.after[e.owner]), w, TolU(e), TolU(e)))
\* the same halo at another peak time
Peak(e) == Cl("peak_time_shifts_quenching_time_only", \A c \in 3..26 : c # 11 => FEq(e.after[c], e.before[c]))
\* one relation along halo mass
Flat(e) == Cl("flat", \A c \in 1..Len(e.y) : Close(e.y[c], e.y0, FZero, IF IsX64(e) THEN R("1e-7") ELSE R("1e-5")))
Sweep(e) ==
    LET n == Len(e.x)
        want(k) == ClippedLine(e.x[k], LGM_X0, e.y0, e.m, e.lo, e.hi)
    IN Then(Cl("shape", Len(e.y) = n),
            Cl("finite", AllFin(e.y))
            \cup Cl("range", \A k \in 1..n : InR(e, e.y[k], e.lo, e.hi))
            \cup Cl("line", \A k \in 1..n : Close(e.y[k], want(k), TolU(e), TolU(e)))
            \* (the smooth clip dips by up to 1.4e-4 of the interval)
            \cup Cl("direction", \A k \in 1..(n - 1) : LET s == IF IsX64(e) THEN R("2e-4") (.) (e.hi (-) e.lo) ELSE TolU(e) IN
                     IF FZero \preceq e.m THEN (e.y[k] (-) s) \preceq e.y[k + 1] ELSE e.y[k + 1] \preceq (e.y[k] (+) s)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "point" -> Point(e)
           [] e.op = "touch" -> Touch(e)
           [] e.op = "peak" -> Peak(e)
           [] e.op = "flat" -> Flat(e)
           [] e.op = "sweep" -> Sweep(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
