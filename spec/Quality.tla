------------------------------ MODULE Quality -------------------------------
(***************************************************************************)
(* Mean histories of simulated and fitted galaxies in bins of halo mass.   *)
(* A galaxy counts in its bin if both its fits succeeded.  A log value of  *)
(* exactly zero stands for "nothing formed": it adds nothing to the sums.  *)
(***************************************************************************)
EXTENDS Histories
QUALITY_SSFR_MIN == R("1e-12")
IsNone(lg) == FEq(lg, FZero)
MassOf(lg) == IF IsNone(lg) THEN FZero ELSE FPow10(lg)
\* rate, not below the floor where the galaxy has a mass
Floored(r, m) == IF FZero \prec m THEN FMax(r (/) m, QUALITY_SSFR_MIN) (.) m ELSE r
DataRate(sfr, lgm) == IF sfr \preceq FZero THEN FZero ELSE Floored(sfr, MassOf(lgm))
FitRate(lgr, lgm) == IF IsNone(lgr) \/ IsNone(lgm) THEN FZero ELSE Floored(FPow10(lgr), MassOf(lgm))
InMassBin(lgmp, lo, hi) == lo \prec lgmp /\ lgmp \prec hi
=============================================================================
