------------------------------ MODULE Measure ------------------------------
(***************************************************************************)
(* Target tables measured from fitted galaxies.  A galaxy has a flag       *)
(* whether it is fitted, a part (chunk or subvolume) which holds it, its   *)
(* kind (central or not) and its halo mass, stellar mass and specific rate *)
(* at every target redshift.  Cells are (redshift z, halo mass bin m).     *)
(***************************************************************************)
EXTENDS Hist, FiniteSets

InBin(x, edges, k) == edges[k] \preceq x /\ x \prec edges[k + 1]
\* who is counted in a cell
Counted(gals, edges, z, m) == {g \in 1..Len(gals) : gals[g].fit /\ InBin(gals[g].mh[z], edges, m)}
CountedIn(gals, edges, z, m, part) == {g \in Counted(gals, edges, z, m) : gals[g].part = part}
Centrals(gals, s) == {g \in s : gals[g].cen}
SumOver(gals, s, f(_)) == LET t(g) == IF g \in s THEN f(g) ELSE FZero IN FSumRange(t, 1, Len(gals))
MeanStep(edges) == (edges[Len(edges)] (-) edges[1]) (/) FInt(Len(edges) - 1)
\* soft counts of all fitted galaxies in a bin of halo mass
SoftCount(gals, edges, z, m) ==
    LET w(g) == TwBinWeight(gals[g].mh[z], MeanStep(edges), edges[m], edges[m + 1])
    IN SumOver(gals, {g \in 1..Len(gals) : gals[g].fit}, w)
SoftSum(gals, edges, z, m) ==
    LET w(g) == gals[g].sm[z] (.) TwBinWeight(gals[g].mh[z], MeanStep(edges), edges[m], edges[m + 1])
    IN SumOver(gals, {g \in 1..Len(gals) : gals[g].fit}, w)
\* distributions within a cell: of stellar mass, and of mass and specific rate
SoftMass(gals, s, sedges, z, k) ==
    LET w(g) == TwBinWeight(gals[g].sm[z], MeanStep(sedges), sedges[k], sedges[k + 1]) IN SumOver(gals, s, w)
SoftRate(gals, s, sedges, redges, z, k, l) ==
    LET w(g) == TwBinWeight(gals[g].sm[z], MeanStep(sedges), sedges[k], sedges[k + 1])
                (.) TwBinWeight(gals[g].rate[z], MeanStep(redges), redges[l], redges[l + 1])
    IN SumOver(gals, s, w)
\* how many galaxies of a cell each part contributes to the samples
SampleSize(n, quota) == IF n < quota THEN n ELSE quota
=============================================================================
