------------------------------- MODULE MC_C22 -------------------------------
(* A histogram that is filled point by point, in any order.                 *)
EXTENDS Hist, FiniteSets, TLC
CONSTANTS NPts, NDim
VARIABLES filled, order, counts
vars == <<filled, order, counts>>
\* points on and off bin edges, of scatters from far below to above a bin width
Xs == << <<R("0"), R("2")>>, <<R("1"), R("0.5")>>, <<R("2.5"), R("1")>>, <<R("-1.5"), R("3.7")>>, <<R("1.0001"), R("2")>> >>
Ss == << <<R("0.01"), R("0.3")>>, <<R("0.5"), R("0.2")>>, <<R("1"), R("0.1")>>, <<R("0.2"), R("2")>>, <<R("1e-6"), R("1")>> >>
Ws == << FOne, R("2"), R("0.25"), FZero, R("7") >>
Cut(s) == SubSeq(s, 1, NDim)
\* bins which tile [-20, 20] in every dimension, in a dictionary of edges
Edges == <<R("-20"), R("0"), R("1"), R("2.5"), R("20")>>
NE == Len(Edges) - 1
NB == IF NDim = 1 THEN NE ELSE NE * NE
Lo(b) == IF NDim = 1 THEN <<Edges[b]>> ELSE <<Edges[((b - 1) \div NE) + 1], Edges[((b - 1) % NE) + 1]>>
Hi(b) == IF NDim = 1 THEN <<Edges[b + 1]>> ELSE <<Edges[((b - 1) \div NE) + 2], Edges[((b - 1) % NE) + 2]>>
Add(p, c) == [b \in 1..NB |-> c[b] (+) (Ws[p] (.) PointInBin(Cut(Xs[p]), Cut(Ss[p]), Lo(b), Hi(b)))]
Init == filled = {} /\ order = <<>> /\ counts = [b \in 1..NB |-> FZero]
Fill(p) == /\ p \notin filled /\ filled' = filled \cup {p} /\ order' = Append(order, p) /\ counts' = Add(p, counts)
           /\ PrintT(<<"SCEN", NDim>> \o order')
Next == \E p \in 1..NPts : Fill(p)
Spec == Init /\ [][Next]_vars
Total == FSum([b \in 1..NB |-> counts[b]])
WTotal == LET f(k) == Ws[order[k]] IN FSumRange(f, 1, Len(order))
NonNegative == \A b \in 1..NB : R("-1e-12") \preceq counts[b]
Conserved == Close(Total, WTotal, R("1e-12"), R("1e-12"))
\* the order in which points came does not matter
OrderFree == \A b \in 1..NB : Close(counts[b], BinSum([k \in 1..NPts |-> Cut(Xs[k])], [k \in 1..NPts |-> Cut(Ss[k])],
                                     [k \in 1..NPts |-> IF k \in filled THEN Ws[k] ELSE FZero], Lo(b), Hi(b)), R("1e-12"), R("1e-12"))
\* merging the first two bins
Merged == LET lo == Lo(1)  hi == Hi(2)
              m == BinSum([k \in 1..Len(order) |-> Cut(Xs[order[k]])], [k \in 1..Len(order) |-> Cut(Ss[order[k]])],
                          [k \in 1..Len(order) |-> Ws[order[k]]], lo, hi)
          IN Close(m, counts[1] (+) counts[2], R("1e-12"), R("1e-12"))
OnlyGrows == [][ \A b \in 1..NB : (counts[b] (-) R("1e-12")) \preceq counts'[b] ]_vars
CdfLimits == FEq(TwCdf(R("-3")), FZero) \/ Close(TwCdf(R("-3")), FZero, FZero, R("1e-12"))
ASSUME CdfLimits /\ Close(TwCdf(R("3")), FOne, FZero, R("1e-12")) /\ FEq(TwCdf(FZero), FHalf)
=============================================================================
