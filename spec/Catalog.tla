------------------------------- MODULE Catalog ------------------------------
(***************************************************************************)
(* Catalogues on disk: fit files (text lines, collated columns), row       *)
(* ranges of flat files, halo growth fits with unfit halos masked, and     *)
(* Galacticus formation tables.                                            *)
(***************************************************************************)
EXTENDS Galaxy

FitColumns == <<"halo_id">> \o GalNames \o <<"loss", "success">>
NOFIT == R("-99.0")
NOFIT_LOSS == R("-1.0")

\* a value after being written with six significant digits
Round6(x) ==
    IF FEq(x, FZero) \/ ~FFin(x) THEN x ELSE
    LET a == FAbs(x)
        e == FFloor(FLog10(a))
        s == FPow10(FInt(5 - e))
        n == FInt(FFloor((a (.) s) (+) FHalf))
        r == n (/) s
    IN IF x \prec FZero THEN FNeg(r) ELSE r
\* the text of a written value reads back as it, to six digits
SixDigits(text, x) == Close(text, x, R("5.1e-6"), FZero)

\* a galaxy to be written: [id, fit, p, loss, flag]; its line
LineOf(g) ==
    LET f(i) == Round6(F32(g.p[i]))  nf(i) == NOFIT
    IN IF g.fit THEN <<g.id>> \o Vec(8, f) \o <<Round6(g.loss), g.flag>>
       ELSE <<g.id>> \o Vec(8, nf) \o <<NOFIT_LOSS, -1>>
\* columns of a list of lines
Collate(lines) == [c \in 1..Len(FitColumns) |-> [i \in 1..Len(lines) |-> lines[i][c]]]
Row(cols, i) == [c \in DOMAIN cols |-> cols[c][i]]

\* rows lo..hi-1 (counted from zero), as far as they exist; hi = -1: to the end
Upto(n, hi) == IF hi = -1 \/ hi > n THEN n ELSE hi
Rows(col, lo, hi) == SubSeq(col, lo + 1, Upto(Len(col), hi))

----------------------------------------------------------------------------
\* halo growth fits: a row is [mah, loss, npts]
Unfit(row, nmin) == row.loss \prec FZero \/ row.npts < nmin
MASKED == R("-1.0")
MaskedMah(row, nmin) == IF Unfit(row, nmin) THEN [i \in 1..5 |-> MASKED] ELSE row.mah
PresentMass(row, nmin, default, t0) == LogMah(IF Unfit(row, nmin) THEN default ELSE row.mah, t0, FLog10(t0))

----------------------------------------------------------------------------
\* Galacticus: a stored history is a sequence of 2*nmet rows of masses formed
\* per step (first half total, second half in situ), or empty.
StepSum(h, lo, hi, nt) ==
    LET s(k) == LET f(j) == h[j][k] IN FSumRange(f, lo, hi)
    IN Vec(nt, s)
Zeros(nt) == LET z(k) == FZero IN Vec(nt, z)
TotalOf(h, nt) == IF h = <<>> THEN Zeros(nt) ELSE StepSum(h, 1, Len(h) \div 2, nt)
InSituOf(h, nt) == IF h = <<>> THEN Zeros(nt) ELSE StepSum(h, Len(h) \div 2 + 1, Len(h), nt)
ExtractTable(store, lo, hi, nt, f(_, _)) ==
    [i \in 1..(Upto(Len(store), hi) - lo) |-> f(store[lo + i], nt)]
StepDuration(ts, k) == IF k = 1 THEN ts[1] ELSE ts[k] (-) ts[k - 1]
RateOf(disk, bulge, ts) ==
    LET f(k) == ((disk[k] (+) bulge[k]) (/) StepDuration(ts, k)) (/) YR_PER_GYR IN Vec(Len(ts), f)

----------------------------------------------------------------------------
\* simulated halo masses: log of the stored mass in the stated units, absent
\* below 1e7, never decreasing
RunningMax(v) ==
    LET step(a, i) == Append(a, IF i = 1 THEN v[1] ELSE FMax(a[i-1], v[i]))
    IN FoldRange(step, <<>>, 1, Len(v))
HaloHistory(stored, h, islog) ==
    LET f(i) == IF islog THEN stored[i] (-) FLog10(h)
                ELSE IF stored[i] \prec R("1e7") THEN FZero ELSE FLog10(stored[i])
    IN RunningMax(Vec(Len(stored), f))
=============================================================================
