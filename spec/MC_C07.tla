------------------------------- MODULE MC_C07 -------------------------------
(* Gas histories of tables grown one entry at a time: baryons are          *)
(* conserved, cells tile the axis, nothing is accreted after the peak.     *)
EXTENDS Histories, TLC
CONSTANTS Depth
VARIABLES ts, g, m
vars == <<ts, g, m>>
Gals == <<GalDefault,
          <<R("12.0"), R("-9.5"), R("2.0"), R("-2.0"), R("0.6"), R("-0.7"), R("-2.0"), R("-0.5")>>,
          <<R("11.0"), R("-8.5"), R("1.0"), R("-0.5"), R("1.5"), R("-2.5"), R("-0.5"), R("-0.1")>>>>
Mahs == <<<<R("12.0"), R("0.05"), R("2.6"), R("0.14"), R("14.0")>>,
          <<R("13.0"), R("0.3"), R("4.0"), R("1.0"), R("4.0")>>,
          <<R("11.5"), R("0.6"), R("1.5"), R("0.3"), R("1.5")>>>>
Starts == <<R("0.5"), R("1.5"), R("4.0")>>
Steps == <<R("0.25"), R("1.0"), R("2.5")>>
Init == /\ \E s \in 1..3 : ts = <<Starts[s]>>
        /\ g \in 1..3 /\ m \in 1..3
Next == /\ Len(ts) < Depth
        /\ \E d \in 1..3 : ts' = Append(ts, ts[Len(ts)] (+) Steps[d])
        /\ (Len(ts') = Depth => PrintT(<<"SCEN", g, m>> \o [i \in 1..Depth |-> FStr(ts'[i])]))
        /\ UNCHANGED <<g, m>>
Spec == Init /\ [][Next]_vars
N == Len(ts)
H(t) == GasHistory(Gals[g], Mahs[m], t, R("1.14"), R("0.156"))
Eq(a, b, s) == Close(a, b, FZero, (R("1e-12") (.) s) (+) R("1e-30"))
Tiling == N >= 2 =>
    LET dt == DtTable(ts)
        first == ts[1] (-) (FHalf (.) (ts[2] (-) ts[1]))
        last == ts[N] (+) (FHalf (.) dt[N - 1])
    IN Eq(FSum(dt), last (-) first, ts[N]) /\ \A i \in 1..N : FZero \prec dt[i]
Conserved == N >= 2 => LET h == H(ts) IN
    \A i \in 1..N : Eq(h.mgas[i] (+) h.smh[i], h.gin[i], h.gin[i] (+) h.smh[i])
NoAccretionAfterPeak == N >= 2 => LET h == H(ts) IN
    \A i \in 2..N : Mahs[m][5] \prec ts[i-1] => FEq(h.gin[i], h.gin[i-1]) /\ h.mgas[i] \preceq h.mgas[i-1]
AccretionGrows == N >= 2 => LET h == H(ts) IN \A i \in 2..N : h.gin[i-1] \preceq h.gin[i] /\ h.smh[i-1] \preceq h.smh[i]
CellsSumToChange == N >= 3 => LET h == H(ts)  dt == DtTable(ts)
                                  f(i) == (h.dmgas[i] (.) dt[i]) (.) YR_PER_GYR
                                  mid(i) == FHalf (.) (h.mgas[i] (+) h.mgas[i+1])
    IN Eq(FSumRange(f, 2, N - 1), mid(N - 1) (-) mid(1), FAbs(h.gin[N]) (+) FAbs(h.smh[N]))
\* no stars formed and nothing accreted later changes the past
Past == [][N >= 2 => LET a == H(ts)  b == H(ts') IN
              SubSeq(b.mgas, 1, N) = a.mgas /\ SubSeq(b.smh, 1, N) = a.smh /\ SubSeq(b.dmgas, 1, N - 1) = SubSeq(a.dmgas, 1, N - 1)]_vars
=============================================================================
