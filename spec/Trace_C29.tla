----------------------------- MODULE Trace_C29 -----------------------------
EXTENDS TraceBase, FitCells
Eps(e) == IF IsX64(e) THEN R("1e-10") ELSE R("2e-5")
\* catalogue of sampled halos as the file holds it (ids count from zero)
HalosOf(e) == [i \in 1..Len(e.zid) |-> [z |-> e.zid[i] + 1, m |-> e.mid[i] + 1, cen |-> e.upid[i] = -1]]
Rows(e, H) == FitRows(H, e.kind, Enough(e.kind, e.nhalos, 50), e.nz, e.nm)
RowsCheck(e) ==
    LET H == HalosOf(e)
        want == Rows(e, H)
        n == Len(want)
        mem(k) == Members(H, e.kind, want[k][1], want[k][2])
    IN Then(Cl("populated_cells", Len(e.ids) = n),
       Then(Cl("own_halos", \A k \in 1..n : RowOk([i \in 1..Len(e.ids[k]) |-> e.ids[k][i] + 1], mem(k), e.nhalos))
            \cup Cl("age", IsVec(e.tobs, n) /\ \A k \in 1..n : Close(e.tobs[k], e.ages[want[k][1]], Eps(e), FZero)),
            Cl("whole_halo", e.whole)
            \cup Cl("upid", e.kind = "smhm" \/ \A k \in 1..n : \A i \in 1..Len(e.ids[k]) : e.rowupid[k][i] = e.upid[e.ids[k][i] + 1])
            \cup Cl("present_mass", \A k \in 1..n : /\ IsVec(e.logmp0[k], Len(e.ids[k]))
                                       /\ \A i \in 1..Len(e.ids[k]) : Close(e.logmp0[k][i], e.lgm0[e.ids[k][i] + 1], Eps(e), R("1e-4")))
            \cup Cl("infall_same_for_all", e.infallshape /\ Cardinality({e.infall[i] : i \in 1..Len(e.infall)}) = 1)
            \cup Cl("own_key", Len(e.keys) = n /\ Cardinality({e.keys[k] : k \in 1..n}) = n)
            \cup Cl("options", Has(e, "lgt0") => Same(e.lgt0, e.lgt0_in) /\ Same(e.fb, e.fb_in))))
\* large samples for plots are recorded by the halos which they use
PlotCheck(e) ==
    LET H == HalosOf(e)
        want == Rows(e, H)
        n == Len(want)
    IN Then(Cl("populated_cells", Len(e.ids) = n),
            Cl("own_halos", \A k \in 1..n : \A i \in 1..Len(e.ids[k]) : e.ids[k][i] + 1 \in Members(H, e.kind, want[k][1], want[k][2]))
            \cup Cl("age", IsVec(e.tobs, n) /\ \A k \in 1..n : Close(e.tobs[k], e.ages[want[k][1]], Eps(e), FZero))
            \cup Cl("many", \A k \in 1..n : e.drawn[k] >= 1000))
\* one distribution (or mean) per row
TargetsCheck(e) ==
    LET H == HalosOf(e)
        want == Rows(e, H)
        cell(k) == e.measured[want[k][1]][want[k][2]]
    IN Then(Cl("one_per_row", Len(e.targets) = Len(want)),
            IF e.kind = "smhm" THEN Cl("cell_mean", \A k \in 1..Len(want) : Close(e.targets[k], cell(k), Eps(e), FZero))
            ELSE Cl("cell_distribution", \A k \in 1..Len(want) : LET p == Pdf1(cell(k)) IN
                        IsVec(e.targets[k], Len(p)) /\ VecClose(e.targets[k], p, Eps(e), R("1e-12"))))
\* distributions of rates per redshift and chosen mass bin
RateCheck(e) ==
    LET share == Shares(e.counts) IN
    Then(Cl("shape", Len(e.targets) = e.nz /\ \A z \in 1..e.nz : Len(e.targets[z]) = Len(e.sel)),
         Cl("rate_distribution",
            \A z \in 1..e.nz : \A a \in 1..Len(e.sel) :
               LET t == RateTarget(e.measured, share, z, e.sel[a] + 1) IN IsVec(e.targets[z][a], Len(t)) /\ VecClose(e.targets[z][a], t, Eps(e), R("1e-12")))
         \cup Cl("bins", e.binsok))
TablesCheck(e) == LET H == HalosOf(e) IN
    Cl("tables", TableOk(e.idx, e.w, Rows(e, H), Shares(e.counts), e.nz, Eps(e)))
\* a redshift predicted alone (without padding) and among others
PaddingCheck(e) == Cl("padding_inert", Len(e.alone) = Len(e.among) /\ VecClose(e.alone, e.among, Eps(e) (.) R("100.0"), R("1e-7")))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "rows" -> RowsCheck(e)
           [] e.op = "plot_rows" -> PlotCheck(e)
           [] e.op = "targets" -> TargetsCheck(e)
           [] e.op = "rates" -> RateCheck(e)
           [] e.op = "tables" -> TablesCheck(e)
           [] e.op = "padding" -> PaddingCheck(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
