------------------------------- MODULE Helpers -------------------------------
(* Numerical helpers, beside the kernels: matrices, tables, broadcasting.  *)
EXTENDS Kernels, Histories, FiniteSets
\* covariance <-> correlation (square matrices as sequences of rows)
CorrOf(cov) ==
    LET n == Len(cov)
        s(i) == FSqrt(cov[i][i])
        row(i) == LET f(j) == IF FEq(cov[i][j], FZero) THEN FZero ELSE cov[i][j] (/) (s(i) (.) s(j)) IN Vec(n, f)
    IN Vec(n, row)
CovOf(corr, sig) ==
    LET n == Len(corr)
        row(i) == LET f(j) == (sig[i] (.) corr[i][j]) (.) sig[j] IN Vec(n, f)
    IN Vec(n, row)
Sigmas(cov) == LET f(i) == FSqrt(cov[i][i]) IN Vec(Len(cov), f)

\* i (1-based) brackets x from above: xs[i-1] <= x <= xs[i]
Brackets(x, xs, i) == 2 <= i /\ i <= Len(xs) /\ xs[i-1] \preceq x /\ x \preceq xs[i]
LineThrough(x, xs, ys, i) == ys[i-1] (+) (((ys[i] (-) ys[i-1]) (/) (xs[i] (-) xs[i-1])) (.) (x (-) xs[i-1]))

\* time cells tile the axis: each ends where the next begins, and the cell
\* boundaries are the midpoints
CellStart(ts, i) == IF i = 1 THEN ts[1] (-) ((ts[2] (-) ts[1]) (/) FTwo) ELSE FHalf (.) (ts[i-1] (+) ts[i])
CellEnds(ts, dts, i) == CellStart(ts, i) (+) dts[i]

\* broadcasting: lengths 0 stands for a scalar here; result length, or "refused"
BLen(a) == IF a = 0 THEN 1 ELSE a
Common(args) == LET L == {BLen(args[i]) : i \in 1..Len(args)} IN CHOOSE m \in L : \A q \in L : q <= m
Accepts(args) == \A i \in 1..Len(args) : BLen(args[i]) \in {1, Common(args)}
Broadcast(v, n) == IF Len(v) = n THEN v ELSE [i \in 1..n |-> v[1]]

\* a smooth step never leaves its asymptotes
Between(y, a, b, tol) == (FMin(a, b) (-) tol) \preceq y /\ y \preceq (FMax(a, b) (+) tol)
Rising(k, ymin, ymax) == FZero \prec (k (.) (ymax (-) ymin))
Ordered(ys, up, tol) == \A i \in 1..(Len(ys) - 1) :
    IF up THEN ys[i] \preceq (ys[i+1] (+) tol) ELSE ys[i+1] \preceq (ys[i] (+) tol)
=============================================================================
