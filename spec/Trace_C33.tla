------------------------------ MODULE Trace_C33 ------------------------------
(* Mean histories in the quality files, at some of their times.             *)
EXTENDS TraceBase, Quality
Tol(e) == IF IsX64(e) THEN R("1e-9") ELSE R("3e-4")
NB(e) == Len(e.edges) - 1
Members(e, b) == {i \in 1..Len(e.gals) : e.gals[i].fitted /\ InMassBin(e.gals[i].lgmp, e.edges[b], e.edges[b + 1])}
SumSet(S, f(_)) ==
    LET RECURSIVE go(_)
        go(s) == IF s = {} THEN FZero ELSE LET x == CHOOSE x \in s : TRUE IN f(x) (+) go(s \ {x})
    IN go(S)
\* formed mass of the simulated galaxy: given, or the integral of its rate
LgmData(e, g, k) == IF Has(e, "every") THEN FLog10(CumMass(e.every, g.hist)[e.sel[k]]) ELSE g.lgm[k]
LgmFit(e, g, k) == Interp(e.times[k], e.ttab, g.tm)
LgrFit(e, g, k) == Interp(e.times[k], e.ttab, g.tr)
Mean(e, b, k, f(_, _)) ==
    LET h(i) == f(e.gals[i], k) IN SumSet(Members(e, b), h) (/) FInt(Cardinality(Members(e, b)))
Curve(e, got, f(_, _)) ==
    \A b \in 1..NB(e) : \A k \in 1..Len(e.times) :
        IF Members(e, b) = {} THEN FNaN(got[b][k]) ELSE Close(got[b][k], Mean(e, b, k, f), Tol(e), R("1e-30"))
Curves(e) ==
    LET md(g, k) == MassOf(LgmData(e, g, k))
        mf(g, k) == MassOf(LgmFit(e, g, k))
        rd(g, k) == DataRate(g.sfr[k], LgmData(e, g, k))
        rf(g, k) == FitRate(LgrFit(e, g, k), LgmFit(e, g, k))
    IN Then(Cl("shape", e.shape),
            Cl("times", \A k \in 1..Len(e.times) : Close(e.tarr[k], e.times[k], R("1e-7"), FZero))
            \cup Cl("bins", \A b \in 1..(NB(e) + 1) : Close(e.binedges[b], e.edges[b], R("1e-9"), FZero))
            \cup Cl("centres", \A b \in 1..NB(e) : Close(e.centres[b], (e.edges[b] (+) e.edges[b + 1]) (/) FTwo, R("1e-9"), FZero))
            \cup Cl("mass_data", Curve(e, e.mdata, md)) \cup Cl("mass_fit", Curve(e, e.mfit, mf))
            \cup Cl("rate_data", Curve(e, e.rdata, rd)) \cup Cl("rate_fit", Curve(e, e.rfit, rf)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "quality" -> Curves(e)
           [] e.op = "files" -> Cl("files", e.files = e.wanted)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
