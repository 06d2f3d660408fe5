----------------------------- MODULE Trace_C23 -----------------------------
EXTENDS TraceBase, Pdf
Eps(e) == IF IsX64(e) THEN R("1e-12") ELSE R("3e-6")
\* distributions derived from whole populations lose more
TolD(e) == IF IsX64(e) THEN R("1e-7") ELSE R("1e-2")
ProbOk(e, v) == /\ AllFin(v) /\ \A i \in 1..Len(v) : FNeg(Eps(e)) \preceq v[i]
                /\ Close(FSum(v), FOne, FZero, Eps(e) (.) R("10.0"))
\* histograms of given points
HistM(e) ==
    LET raw == MassHist(e.lgm, e.w, e.edges) IN
    Cl("distribution", ProbOk(e, e.out))
    \cup Cl("value", VecClose(e.out, Normalized(raw), FZero, (Eps(e) (.) R("20.0") (.) AbsSum(e.w)) (/) FSum(raw)))
HistMS(e) ==
    LET raw == MassSsfrHist(e.lgm, e.lgs, e.w, e.los, e.his, e.medges, e.sedges) IN
    Cl("distribution", ProbOk(e, e.out))
    \cup Cl("value", VecClose(e.out, Normalized(raw), FZero, (Eps(e) (.) R("20.0") (.) AbsSum(e.w)) (/) FSum(raw)))
\* observables of a halo history table
ObsV(e) ==
    LET ts == ObsTimes(e.tobs)
        rel == IF IsX64(e) THEN R("1e-9") ELSE R("1e-4")
    IN Cl("mass_at_tobs", \A h \in 1..Len(e.ms) :
            /\ Close(e.m_ms[h], CumMass(ts, e.ms[h])[Len(ts)], rel, FZero)
            /\ Close(e.m_q[h], CumMass(ts, e.q[h])[Len(ts)], rel, FZero))
\* points and weights of bin b of a recorded prediction
Pts(e, b) ==
    LET hs == e.halos[b]
        n == Len(hs)
        f(i) == Obs(IF i <= n THEN hs[i].p_ms ELSE hs[i - n].p_q, IF i <= n THEN hs[i].mah ELSE hs[i - n].mah, e.tobs[b], e.lgt0, e.fb)
        q(i) == QuenchProb(e.p, hs[i].h)
    IN [o |-> Vec(2 * n, f), w |-> MixWeights(Vec(n, q))]
Cols(o, k) == LET f(i) == o[i][k] IN Vec(Len(o), f)
Mstar(e) ==
    LET nb == Len(e.tobs)
    IN Then(Cl("shape", Len(e.out) = nb /\ \A b \in 1..nb : IsVec(e.out[b], Len(e.medges) - 1)),
            UNION {LET p == Pts(e, b)
                       raw == MassHist(Cols(p.o, 1), p.w, e.medges)
                       share == FSum(raw) (/) FInt(Len(e.halos[b]))
                   IN IF share \prec R("1e-3") THEN {}
                      ELSE Cl("distribution", ProbOk(e, e.out[b]))
                           \cup Cl("mixture", VecClose(e.out[b], Normalized(raw), FZero, TolD(e) (/) share))
                   : b \in 1..nb})
Ssfr(e) ==
    LET nb == Len(e.tobs)
        ns == Len(e.sedges) - 1
        bin(b) == LET p == Pts(e, b) IN MassSsfrHist(Cols(p.o, 1), Cols(p.o, 3), p.w, e.los, e.his, e.medges, e.sedges)
        raws == Vec(nb, bin)
        shares == [b \in 1..nb |-> FSum(raws[b]) (/) FInt(Len(e.halos[b]))]
        norm(b) == Normalized(raws[b])
        pdfs == Vec(nb, norm)
        comb == Combine(pdfs, e.abund, e.idx, e.ids, ns)
    IN Then(Cl("shape", Len(e.out) = Len(e.idx) /\ \A z \in 1..Len(e.out) : Len(e.out[z]) = Len(e.ids)
                        /\ \A a \in 1..Len(e.ids) : IsVec(e.out[z][a], ns)),
            UNION {LET used == {e.idx[z][m] + 1 : m \in 1..Len(e.idx[z])}
                       total == FSum(comb[z][a])
                       weight == FSum(e.abund[z])
                       minshare == FSeqMin([m \in 1..Len(e.idx[z]) |-> shares[e.idx[z][m] + 1]])
                       \* share of all galaxies in the selected row
                       share == (total (/) weight) (.) minshare
                   IN IF ~(R("1e-3") \preceq share) THEN {}
                      ELSE Cl("distribution", ProbOk(e, e.out[z][a]))
                           \cup Cl("mixture", VecClose(e.out[z][a], Normalized(comb[z][a]), FZero, TolD(e) (/) share))
                   : z \in 1..Len(e.idx), a \in 1..Len(e.ids)})
\* two routes to the same prediction
Same2(e) == Cl(e.what, Len(e.a) = Len(e.b) /\ VecClose(e.a, e.b, FZero, TolD(e)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "hist_m" -> HistM(e)
           [] e.op = "hist_ms" -> HistMS(e)
           [] e.op = "obs" -> ObsV(e)
           [] e.op = "mstar" -> Mstar(e)
           [] e.op = "ssfr" -> Ssfr(e)
           [] e.op = "same" -> Same2(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
