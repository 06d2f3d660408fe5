----------------------------- MODULE Histories -----------------------------
(* Histories over a time table: stellar mass, averaged rate, gas.          *)
EXTENDS Galaxy

\* Cumulative integral as a transition system: the carry is
\* [t, f, acc]; Advance consumes one table entry.
ScanInit == [t |-> T_BIRTH, f |-> SFR_MIN, acc |-> FZero]
ScanStep(c, t, f) ==
    [t |-> t, f |-> f, acc |-> c.acc (+) (((t (-) c.t) (.) (f (+) c.f)) (/) FTwo)]
MstarOf(c) == c.acc (.) YR_PER_GYR

\* table of cumulative masses (all prefixes) in one pass
CumMass(ts, fs) ==
    LET step(a, i) ==
            LET acc == a.acc (+) (((ts[i] (-) a.t) (.) (fs[i] (+) a.f)) (/) FTwo)
            IN [t |-> ts[i], f |-> fs[i], acc |-> acc, out |-> Append(a.out, acc (.) YR_PER_GYR)]
    IN FoldRange(step, [t |-> T_BIRTH, f |-> SFR_MIN, acc |-> FZero, out |-> <<>>], 1, Len(ts)).out

\* linear interpolation in an increasing table, constant outside of it
InterpIdx(x, xs) ==   \* smallest i with x < xs[i] (Len+1 if none)
    LET RECURSIVE bs(_, _)
        bs(lo, hi) == IF lo >= hi THEN lo
                      ELSE LET mid == (lo + hi) \div 2
                           IN IF x \prec xs[mid] THEN bs(lo, mid) ELSE bs(mid + 1, hi)
    IN bs(1, Len(xs) + 1)
Interp(x, xs, ys) ==
    LET n == Len(xs)  i == InterpIdx(x, xs)
    IN IF i = 1 THEN ys[1]
       ELSE IF i = n + 1 THEN ys[n]
       ELSE ys[i-1] (+) (((ys[i] (-) ys[i-1]) (/) (xs[i] (-) xs[i-1])) (.) (x (-) xs[i-1]))

Fstar(ts, ms, delay) ==
    LET f(i) == FMax(((ms[i] (-) Interp(ts[i] (-) delay, ts, ms)) (/) delay) (/) YR_PER_GYR, FZero)
    IN Vec(Len(ts), f)

\* Durations of the time cells: cells meet at midpoints; the outermost cells
\* extend beyond the table by half of the first step, and by half of the
\* previous cell.  (At least three entries.)
DtTable(ts) ==
    LET n == Len(ts)
        mid(i) == FHalf (.) (ts[i] (+) ts[i+1])        \* 1..n-1
        mids == Vec(n - 1, mid)
        inner(i) == mids[i] (-) mids[i-1]              \* 2..n-1
        first == mids[1] (-) (ts[1] (-) ((ts[2] (-) ts[1]) (/) FTwo))
        prev == IF n >= 3 THEN inner(n - 1) ELSE first
        last == (ts[n] (+) (prev (/) FTwo)) (-) mids[n-1]
        f(i) == IF i = 1 THEN first ELSE IF i = n THEN last ELSE inner(i)
    IN Vec(n, f)

GasHistory(gal, mah, ts, lgt0, fb) ==
    LET n == Len(ts)
        sfh == SfhTable(gal, mah, ts, lgt0, fb)
        acc(i) == fb (.) Dmhdt(mah, ts[i], lgt0)
        smh == CumMass(ts, sfh)
        gin == CumMass(ts, Vec(n, acc))
        g(i) == gin[i] (-) smh[i]
        gas == Vec(n, g)
        dt == DtTable(ts)
        dg == DtTable(gas)
        r(i) == (dg[i] (/) dt[i]) (/) YR_PER_GYR
    IN [sfh |-> sfh, smh |-> smh, gin |-> gin, mgas |-> gas, dmgas |-> Vec(n, r)]
=============================================================================
