-------------------------------- MODULE Pdf ---------------------------------
(***************************************************************************)
(* Predicted distributions of stellar mass and specific star formation     *)
(* rate, and the losses against target distributions.                      *)
(*                                                                         *)
(* A redshift (or redshift x halo mass) bin holds halos; each contributes  *)
(* its main-sequence realization with weight 1 - f and its quenched        *)
(* realization with weight f, f being its quenched probability.            *)
(***************************************************************************)
EXTENDS Hist, Histories, Population

NTimes == 20
SsfrFloor == R("-12.0")
ObsTimes(tobs) ==
    LET top == FLog10(tobs)
        f(i) == FPow10(R("-1.0") (+) ((FInt(i - 1) (.) (top (+) FOne)) (/) FInt(NTimes - 1)))
    IN Vec(NTimes, f)
\* log mass, log rate and floored log specific rate at tobs, of histories over
\* ObsTimes(tobs)
ObsOf(ts, sfh) ==
    LET m == FLog10(CumMass(ts, sfh)[Len(ts)])
        s == FLog10(sfh[Len(ts)])
    IN <<m, s, FMax(s (-) m, SsfrFloor)>>
Obs(gal, mah, tobs, lgt0, fb) == LET ts == ObsTimes(tobs) IN ObsOf(ts, SfhTable(gal, mah, ts, lgt0, fb))

MeanWidth(edges) == (edges[Len(edges)] (-) edges[1]) (/) FInt(Len(edges) - 1)
\* weights of the two realizations: first all main-sequence, then all quenched
MixWeights(f) == LET n == Len(f) w(i) == IF i <= n THEN FOne (-) f[i] ELSE f[i - n] IN Vec(2 * n, w)

\* raw mass histogram of points (log masses) with weights
MassHist(lgm, w, edges) ==
    LET s == MeanWidth(edges)
        f(b) == LET g(p) == w[p] (.) TwBinWeight(lgm[p], s, edges[b], edges[b + 1]) IN FSumRange(g, 1, Len(lgm))
    IN Vec(Len(edges) - 1, f)
MassPdf(lgm, w, edges) == Normalized(MassHist(lgm, w, edges))
\* raw (mass, specific rate) histogram in rectangular bins (los[b], his[b])
MassSsfrHist(lgm, lgs, w, los, his, medges, sedges) ==
    LET hm == MeanWidth(medges)  hs == MeanWidth(sedges)
        f(b) == LET g(p) == (w[p] (.) TwBinWeight(lgm[p], hm, los[b][1], his[b][1])) (.) TwBinWeight(lgs[p], hs, los[b][2], his[b][2])
                IN FSumRange(g, 1, Len(lgm))
    IN Vec(Len(los), f)
MassSsfrPdf(lgm, lgs, w, los, his, medges, sedges) == Normalized(MassSsfrHist(lgm, lgs, w, los, his, medges, sedges))
\* pdfs[k]: flattened (mass major) distribution of halo bin k.  abund and idx
\* are (redshift x halo mass) tables; ids selects stellar mass bins.  Indices
\* count from zero.
Combine(pdfs, abund, idx, ids, ns) ==
    LET cell(z, a, s) ==
            LET g(m) == abund[z][m] (.) pdfs[idx[z][m] + 1][(ids[a] * ns) + s] IN FSumRange(g, 1, Len(idx[z]))
    IN [z \in 1..Len(idx) |-> [a \in 1..Len(ids) |-> LET h(s) == cell(z, a, s) IN Vec(ns, h)]]
CombineNormalized(pdfs, abund, idx, ids, ns) ==
    LET c == Combine(pdfs, abund, idx, ids, ns) IN [z \in 1..Len(idx) |-> [a \in 1..Len(ids) |-> Normalized(c[z][a])]]

\* losses
LossScale == R("1000.0")
Mse(p, t) == LET f(i) == (p[i] (-) t[i]) (.) (p[i] (-) t[i]) IN FSumRange(f, 1, Len(p)) (/) FInt(Len(p))
Loss(p, t) == LossScale (.) Mse(p, t)
=============================================================================
