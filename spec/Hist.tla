-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* Differentiable N-dimensional histograms.  A point is a sequence of      *)
(* coordinates with a scatter for each; a bin a sequence of lower and one  *)
(* of upper edges.  A point counts towards a bin with the product over the *)
(* dimensions of the mass of its triweight kernel inside the bin.          *)
(***************************************************************************)
EXTENDS Kernels

PointInBin(x, sig, lo, hi) ==
    LET mul(acc, d) == acc (.) TwBinWeight(x[d], sig[d], lo[d], hi[d]) IN FoldRange(mul, FOne, 1, Len(x))
BinSum(pts, sigs, w, lo, hi) ==
    LET f(p) == w[p] (.) PointInBin(pts[p], sigs[p], lo, hi) IN FSumRange(f, 1, Len(pts))
NdHist(pts, sigs, w, los, his) == LET f(b) == BinSum(pts, sigs, w, los[b], his[b]) IN Vec(Len(los), f)
Ones(n) == LET f(i) == FOne IN Vec(n, f)
\* is the kernel of a point covered by [lo, hi]?
Covered(x, sig, lo, hi) == \A d \in 1..Len(x) : (lo[d] (+) (R("3.0") (.) sig[d])) \preceq x[d] /\ x[d] \preceq (hi[d] (-) (R("3.0") (.) sig[d]))
\* mean of y in bins of x (e.g. the stellar-to-halo mass relation)
BinMean(x, sig, y, lo, hi) ==
    LET f(p) == y[p] (.) TwBinWeight(x[p], sig[p], lo, hi)
        g(p) == TwBinWeight(x[p], sig[p], lo, hi)
    IN FSumRange(f, 1, Len(x)) (/) FSumRange(g, 1, Len(x))
Normalized(v) == LET s == FSum(v) f(i) == v[i] (/) s IN Vec(Len(v), f)
AbsSum(w) == LET f(i) == FAbs(w[i]) IN FSumRange(f, 1, Len(w))
=============================================================================
