------------------------------- MODULE MC_C13 -------------------------------
(* Reading a catalogue of halo fits range by range.                        *)
EXTENDS Catalog, TLC, FiniteSets
CONSTANTS MaxN
VARIABLES rows, at, got, asked
vars == <<rows, at, got, asked>>
\* kinds of stored row: loss and number of fitted points around the thresholds
Kinds == <<[loss |-> R("0.1"), npts |-> 20], [loss |-> FZero, npts |-> 5], [loss |-> R("-1.0"), npts |-> 20],
           [loss |-> R("0.1"), npts |-> 4], [loss |-> R("-1e-3"), npts |-> 0]>>
RowOf(k, i) == [mah |-> <<FInt(10 + i), R("0.1"), R("2.5"), R("0.3"), R("9.0")>>, loss |-> Kinds[k].loss, npts |-> Kinds[k].npts, kind |-> k]
Default == <<R("12.0"), R("0.05"), R("2.6137643"), R("0.12692805"), R("14.0")>>
NMIN == 5
Init == \E n \in 1..MaxN : \E ks \in [1..n -> 1..5] :
            rows = [i \in 1..n |-> RowOf(ks[i], i)] /\ at = 0 /\ got = <<>> /\ asked = <<>>
N == Len(rows)
\* read the next block, of any size (a block may reach past the end, or run to
\* the end with no end given)
Read == /\ at < N
        /\ \E hi \in ((at + 1)..(N + 2)) \cup {-1} :
             /\ got' = got \o [i \in 1..(Upto(N, hi) - at) |-> MaskedMah(Rows(rows, at, hi)[i], NMIN)]
             /\ at' = Upto(N, hi) /\ asked' = Append(asked, hi)
             /\ (at' = N => PrintT(<<"SCEN", N>> \o [i \in 1..N |-> rows[i].kind] \o asked'))
        /\ UNCHANGED rows
Spec == Init /\ [][Read]_vars
Whole == [i \in 1..N |-> MaskedMah(rows[i], NMIN)]
Concatenates == got = SubSeq(Whole, 1, at)
EachOnItsOwn == \A i \in 1..Len(got) : got[i] = MaskedMah(rows[i], NMIN)
MaskedEverywhere == \A i \in 1..Len(got) :
    IF rows[i].kind \in {3, 4, 5} THEN \A k \in 1..5 : FEq(got[i][k], MASKED) ELSE got[i] = rows[i].mah
MassOfMaskedIsDefault == \A i \in 1..N : rows[i].kind = 3 =>
    FEq(PresentMass(rows[i], NMIN, Default, R("13.8")), LogMah(Default, R("13.8"), FLog10(R("13.8"))))
Prefix == [][SubSeq(got', 1, Len(got)) = got]_vars
=============================================================================
