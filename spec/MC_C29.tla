------------------------------- MODULE MC_C29 -------------------------------
(* Assembly of the fit tables, cell by cell.  Each cell holds no, too few,  *)
(* just enough or many halos of the kind which is fitted (and some others). *)
EXTENDS FitCells, TLC
CONSTANTS NZ, NM, Need, NHalos, Skip
VARIABLES pop, at, rows, table, stage
vars == <<pop, at, rows, table, stage>>
Size == [none |-> 0, few |-> Need - 1, exact |-> Need, many |-> Need + 2]
Classes == DOMAIN Size
Cells == (1..NZ) \X (1..NM)
Rank(z, m) == (z - 1) * NM + m
\* halos in catalogue order: mass bins interleave; every cell also has one halo of the other kind
RECURSIVE Halos(_, _)
Halos(f, k) == IF k > NZ * NM THEN <<>>
               ELSE LET z == 1 + ((k - 1) \div NM)  m == 1 + ((k - 1) % NM)
                    IN [i \in 1..Size[f[k]] |-> [z |-> z, m |-> m, cen |-> TRUE]] \o <<[z |-> z, m |-> m, cen |-> FALSE]>> \o Halos(f, k + 1)
H == Halos(pop, 1)
Kind == "ssfr_cen"
Count(z, m) == FInt(Cardinality({i \in 1..Len(H) : H[i].z = z /\ H[i].m = m /\ H[i].cen}))
Share == Shares([z \in 1..NZ |-> [m \in 1..NM |-> Count(z, m)]])
Init == /\ pop \in [1..(NZ * NM) -> Classes] /\ at = <<1, 1>> /\ rows = <<>> /\ stage = "rows"
        /\ table = [z \in 1..NZ |-> <<>>]
        \* every redshift has a populated bin
        /\ \A z \in 1..NZ : \E m \in 1..NM : Size[pop[Rank(z, m)]] >= Need
        /\ PrintT(<<"SCEN">> \o pop)
Following(c) == IF c[2] < NM THEN <<c[1], c[2] + 1>> ELSE <<c[1] + 1, 1>>
\* draws: first members, last members (what is drawn is free; these two differ)
Draws(mem) == {[k \in 1..NHalos |-> CHOOSE i \in mem : Cardinality({j \in mem : j < i}) = (k - 1) % Cardinality(mem)],
               [k \in 1..NHalos |-> CHOOSE i \in mem : Cardinality({j \in mem : j > i}) = (k - 1) % Cardinality(mem)]}
Visit ==
    /\ stage = "rows" /\ at[1] <= NZ
    /\ at' = Following(at)
    /\ LET mem == Members(H, Kind, at[1], at[2]) IN
       IF Cardinality(mem) >= Need
       THEN \E d \in Draws(mem) :
              /\ rows' = Append(rows, [cell |-> at, ids |-> d])
              /\ table' = [table EXCEPT ![at[1]] = Append(@, [k |-> Len(rows), m |-> at[2]])]
       ELSE /\ rows' = rows
            \* Skip: the defective design, which advances the row index of an unpopulated bin
            /\ table' = IF Skip THEN [table EXCEPT ![at[1]] = Append(@, [k |-> Len(rows), m |-> at[2]])] ELSE table
    /\ UNCHANGED <<pop, stage>>
Widest == LET n(z) == Len(table[z]) IN CHOOSE w \in {n(z) : z \in 1..NZ} : \A z \in 1..NZ : n(z) <= w
Pack == /\ stage = "rows" /\ at[1] > NZ /\ stage' = "done" /\ UNCHANGED <<pop, at, rows, table>>
Spec == Init /\ [][Visit \/ Pack]_vars /\ WF_vars(Visit \/ Pack)
Idx == [z \in 1..NZ |-> [p \in 1..Widest |-> IF p <= Len(table[z]) THEN table[z][p].k ELSE 0]]
W == [z \in 1..NZ |-> [p \in 1..Widest |-> IF p <= Len(table[z]) THEN Share[z][table[z][p].m] ELSE FZero]]
Done == stage = "done"
RowCells == [k \in 1..Len(rows) |-> rows[k].cell]
OwnHalos == \A k \in 1..Len(rows) : RowOk(rows[k].ids, Members(H, Kind, rows[k].cell[1], rows[k].cell[2]), NHalos)
AllCells == Done => RowCells = FitRows(H, Kind, Need, NZ, NM)
Tables == Done => TableOk(Idx, W, RowCells, Share, NZ, R("1e-12"))
\* every fitted row enters exactly one redshift, with its own mass bin
Once == Done => \A k \in 1..Len(rows) :
          Cardinality({<<z, p>> \in (1..NZ) \X (1..Widest) : Idx[z][p] = k - 1 /\ FZero \prec W[z][p]}) = 1
\* what is fitted weighs at most all halos of the redshift
Weights == Done => \A z \in 1..NZ : FSum(W[z]) \preceq R("1.000000000001")
Finishes == <>Done
=============================================================================
