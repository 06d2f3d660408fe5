----------------------------- MODULE FitCells -----------------------------
(***************************************************************************)
(* Tables with which the population model is fitted, assembled from        *)
(* measured targets.  Sampled halos lie in cells (target redshift z, halo  *)
(* mass bin m); a halo is a central or a satellite.  A fit row is one cell *)
(* with enough halos of the kind fitted: its halos, its age, its target.   *)
(* Indices of halos, redshifts and bins count from one here.               *)
(***************************************************************************)
EXTENDS Flt, FiniteSets

Kinds == {"smhm", "mstar", "mstar_cen", "mstar_sat", "ssfr_cen", "ssfr_sat"}
\* fewest halos with which a cell is fitted
Enough(kind, nhalos, pdfneed) == IF kind = "smhm" THEN nhalos ELSE pdfneed
OfKind(kind, iscen) == \/ kind \in {"smhm", "mstar"}
                       \/ kind \in {"mstar_cen", "ssfr_cen"} /\ iscen
                       \/ kind \in {"mstar_sat", "ssfr_sat"} /\ ~iscen
\* halos: sequence of [z, m, cen]
Members(halos, kind, z, m) == {i \in 1..Len(halos) : halos[i].z = z /\ halos[i].m = m /\ OfKind(kind, halos[i].cen)}
Populated(halos, kind, need, z, m) == Cardinality(Members(halos, kind, z, m)) >= need
\* cells which are fitted, ordered by redshift and then by mass
RECURSIVE CellsFrom(_, _, _, _, _, _, _)
CellsFrom(halos, kind, need, nz, nm, z, m) ==
    IF z > nz THEN <<>>
    ELSE (IF Populated(halos, kind, need, z, m) THEN << <<z, m>> >> ELSE <<>>)
         \o (IF m < nm THEN CellsFrom(halos, kind, need, nz, nm, z, m + 1) ELSE CellsFrom(halos, kind, need, nz, nm, z + 1, 1))
FitRows(halos, kind, need, nz, nm) == CellsFrom(halos, kind, need, nz, nm, 1, 1)
\* a fair sample of n members: without repeats while there are enough
RowOk(ids, members, n) == /\ Len(ids) = n
                          /\ \A k \in 1..Len(ids) : ids[k] \in members
                          /\ n <= Cardinality(members) => Cardinality({ids[k] : k \in 1..Len(ids)}) = n
\* dense index (from zero) and weight tables: for each redshift its own rows in
\* order, each with the share of its mass bin; what is left over weighs nothing
RowsAt(rows, z) == {k \in 1..Len(rows) : rows[k][1] = z}
TableOk(idx, w, rows, share, nz, eps) ==
    /\ Len(idx) = nz /\ Len(w) = nz
    /\ \A z \in 1..nz : /\ Len(idx[z]) = Len(w[z])
                        /\ Cardinality(RowsAt(rows, z)) <= Len(idx[z])
                        /\ \A p \in 1..Len(idx[z]) :
                             IF p <= Cardinality(RowsAt(rows, z))
                             THEN LET k == idx[z][p] + 1
                                  IN /\ k \in RowsAt(rows, z)
                                     /\ Cardinality({j \in RowsAt(rows, z) : j < k}) = p - 1
                                     /\ Close(w[z][p], share[z][rows[k][2]], eps, FZero)
                             ELSE FEq(w[z][p], FZero) /\ idx[z][p] \in 0..(Len(rows) - 1)
\* share of the halos of a redshift which lie in each mass bin
Shares(counts) == [z \in 1..Len(counts) |-> LET s == FSum(counts[z]) f(m) == counts[z][m] (/) s IN Vec(Len(counts[z]), f)]
\* measured distribution of one cell, as probabilities
Pdf1(c) == LET s == FSum(c) f(i) == c[i] (/) s IN Vec(Len(c), f)
\* distribution of specific rates in each chosen mass bin: halo mass bins mix by
\* share; negative counts count as none; bins without galaxies have no target
Mixed(wc, share, z, a, b) ==
    LET f(m) == LET row(i) == LET col(j) == FMax(wc[z][m][i][j], FZero) IN FSumRange(col, 1, Len(wc[z][m][i]))
                    tot == FSumRange(row, 1, Len(wc[z][m]))
                IN IF FEq(tot, FZero) THEN FZero ELSE (FMax(wc[z][m][a][b], FZero) (/) tot) (.) share[z][m]
    IN FSumRange(f, 1, Len(wc[z]))
RateTarget(wc, share, z, a) ==
    LET raw(b) == Mixed(wc, share, z, a, b)
        s == FSumRange(raw, 1, Len(wc[z][1][a]))
        t(b) == IF FZero \prec s THEN raw(b) (/) s ELSE FZero
    IN Vec(Len(wc[z][1][a]), t)
=============================================================================
