------------------------------- MODULE MC_C05 -------------------------------
(***************************************************************************)
(* The stellar mass integral as a transition system: one table entry is    *)
(* consumed per step, by three scans at once (rates f, rates g and their   *)
(* combination 2f + g), so that linearity is an invariant.                 *)
(***************************************************************************)
EXTENDS Histories, TLC

CONSTANTS Depth
VARIABLES ts, fs, gs, cf, cg, ch, masses
vars == <<ts, fs, gs, cf, cg, ch, masses>>
Steps == <<R("0.009"), R("0.5"), R("3.0")>>
Rates == <<FZero, R("1e-14"), R("0.3"), R("40.0")>>

Other(k) == Rates[(k % 4) + 1]
Init == /\ ts = <<>> /\ fs = <<>> /\ gs = <<>> /\ masses = <<>>
        /\ cf = ScanInit /\ cg = ScanInit /\ ch = ScanInit
Advance(d, k) ==
    LET t == (IF ts = <<>> THEN R("0.001") ELSE ts[Len(ts)]) (+) Steps[d] IN
    /\ ts' = Append(ts, t) /\ fs' = Append(fs, Rates[k]) /\ gs' = Append(gs, Other(k))
    /\ cf' = ScanStep(cf, t, Rates[k]) /\ cg' = ScanStep(cg, t, Other(k))
    /\ ch' = ScanStep(ch, t, (FTwo (.) Rates[k]) (+) Other(k))
    /\ masses' = Append(masses, MstarOf(cf'))
    /\ (Len(ts') = Depth => PrintT(<<"SCEN">> \o [i \in 1..(2 * Depth) |-> FStr(IF i <= Depth THEN ts'[i] ELSE fs'[i - Depth])]))
Next == Len(ts) < Depth /\ \E d \in 1..Len(Steps), k \in 1..Len(Rates) : Advance(d, k)
Spec == Init /\ [][Next]_vars

E == R("1e-12")
TableAgrees == masses = CumMass(ts, fs)
NonNegative == \A i \in 1..Len(masses) : FZero \preceq masses[i]
Monotone == \A i \in 1..(Len(masses) - 1) : masses[i] \preceq masses[i + 1]
\* starts at birth at the minimum rate (the offset of a sum of two scans)
Linear == ts # <<>> =>
    LET corner == ((ts[1] (-) T_BIRTH) (.) (FTwo (.) SFR_MIN)) (/) FTwo
    IN Close(ch.acc (+) corner, (FTwo (.) cf.acc) (+) cg.acc, E, R("1e-20"))
\* what a prefix of the table gives is a prefix of what the table gives
Prefix == [][SubSeq(masses', 1, Len(masses)) = masses]_vars
=============================================================================
