------------------------------- MODULE MC_C23 -------------------------------
(* Halos join two halo-mass bins one by one; the bins are then combined     *)
(* with abundances at two redshifts and stellar mass rows selected.         *)
(* Realizations sit in cells (mass 1..2) x (specific rate 1..2).            *)
EXTENDS Pdf, TLC
CONSTANTS NHalo
VARIABLES halos, idx, ab, ids, stage, out
vars == <<halos, idx, ab, ids, stage, out>>
Cells == 1..4
Fracs == {FZero, R("0.25"), FOne}
Fixed == << [ms |-> 1, q |-> 2, f |-> R("0.5")], [ms |-> 3, q |-> 4, f |-> R("0.25")] >>
Abund == { << <<FOne, FOne>>, <<FOne, R("3")>> >>, << <<FZero, R("2")>>, <<R("0.5"), R("0.25")>> >> }
Idx == [1..2 -> [1..2 -> {0, 1}]]
Sels == {<<0>>, <<1>>, <<1, 0>>, <<0, 0, 1>>}
\* weights per cell of a bin
Weights(hs) == [c \in Cells |-> LET g(i) == (IF hs[i].ms = c THEN FOne (-) hs[i].f ELSE FZero) (+) (IF hs[i].q = c THEN hs[i].f ELSE FZero)
                                IN FSumRange(g, 1, Len(hs))]
Pdfs == << Normalized(Weights(halos)), Normalized(Weights(Fixed)) >>
Init == /\ halos = <<>> /\ stage = "fill" /\ out = <<>> /\ idx \in Idx /\ ab \in Abund /\ ids \in Sels
Join == stage = "fill" /\ Len(halos) < NHalo /\ \E a, b \in Cells, f \in Fracs : halos' = Append(halos, [ms |-> a, q |-> b, f |-> f])
        /\ UNCHANGED <<idx, ab, ids, stage, out>>
Predict == /\ stage = "fill" /\ Len(halos) > 0 /\ stage' = "done" /\ out' = CombineNormalized(Pdfs, ab, idx, ids, 2)
           /\ (halos = <<[ms |-> 1, q |-> 1, f |-> FZero]>> =>
                 PrintT(<<"SCEN", idx[1][1], idx[1][2], idx[2][1], idx[2][2], FStr(ab[1][1]), FStr(ab[1][2]), FStr(ab[2][1]), FStr(ab[2][2])>> \o ids))
           /\ UNCHANGED <<halos, idx, ab, ids>>
Spec == Init /\ [][Join \/ Predict]_vars
Done == stage = "done"
\* mass in the selected row at this redshift
Mass(z, a) == FSum(Combine(Pdfs, ab, idx, ids, 2)[z][a])
MixSumsToOne == Len(halos) > 0 => Close(FSum(Pdfs[1]), FOne, FZero, R("1e-14")) /\ \A c \in Cells : FZero \preceq Pdfs[1][c]
RowsSumToOne == Done => \A z \in 1..2, a \in 1..Len(ids) : FZero \prec Mass(z, a) =>
                   Close(FSum(out[z][a]), FOne, FZero, R("1e-14")) /\ \A s \in 1..2 : FZero \preceq out[z][a][s]
\* a certain quenched (main-sequence) galaxy has one realization
Certain == Len(halos) = 1 /\ (FEq(halos[1].f, FOne) \/ FEq(halos[1].f, FZero)) =>
           FEq(Pdfs[1][IF FEq(halos[1].f, FOne) THEN halos[1].q ELSE halos[1].ms], FOne)
\* equal rows are selected equally; the order of selection is kept
Rows == Done => \A z \in 1..2, a, b \in 1..Len(ids) : ids[a] = ids[b] => out[z][a] = out[z][b]
\* abundances of a redshift matter up to a factor, those of others not at all
Scaled == Done => LET tw == [z \in 1..2 |-> [m \in 1..2 |-> IF z = 1 THEN R("4") (.) ab[z][m] ELSE ab[z][m]]] IN
                  \A z \in 1..2, a \in 1..Len(ids) : FZero \prec Mass(z, a) =>
                     \A s \in 1..2 : Close(CombineNormalized(Pdfs, tw, idx, ids, 2)[z][a][s], out[z][a][s], FZero, R("1e-14"))
=============================================================================
