----------------------------- MODULE Trace_C14 -----------------------------
EXTENDS TraceBase, Catalog
Tab(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : Len(got[i]) = Len(want[i]) /\ VecClose(got[i], want[i], R("1e-12"), FZero)
Extract(e) ==
    LET tot == ExtractTable(e.store, e.lo, e.hi, e.nt, TotalOf)
        ins == ExtractTable(e.store, e.lo, e.hi, e.nt, InSituOf)
    IN Then(Cl("rows", Len(e.tot) = Len(tot) /\ Len(e.ins) = Len(ins)),
         Cl("total", Tab(e.tot, tot)) \cup Cl("in_situ", Tab(e.ins, ins)) \cup Cl("times", VecSame(e.got_times, e.times)))
MahTables(e) ==
    Cl("masses", e.got_mah = Rows(e.mah, e.lo, e.hi)) \cup Cl("mah_times", e.got_mtimes = Rows(e.mtimes, e.lo, e.hi))
    \cup Cl("isolated", e.got_iso = Rows(e.iso, e.lo, e.hi)) \cup Cl("last_isolated", e.got_last = Rows(e.last, e.lo, e.hi))
    \cup Cl("count", e.count = Len(e.mah))
\* the stored tables (all galaxies, both components) against the target rates
Rates(e, f(_, _), lo, hi) ==
    [i \in 1..(Upto(Len(e.disk), hi) - lo) |-> RateOf(f(e.disk[lo + i], e.nt), f(e.bulge[lo + i], e.nt), e.times)]
Target(e) ==
    Cl("sfh_tot", Tab(e.sfh_tot, Rates(e, TotalOf, e.lo, e.hi))) \cup Cl("sfh_in_situ", Tab(e.sfh_in_situ, Rates(e, InSituOf, e.lo, e.hi)))
    \cup Cl("is_cen", e.is_cen = Rows(e.iso, e.lo, e.hi)) \cup Cl("times", VecSame(e.tarr, e.times))
\* the combined data set: each table under its own name
Combined(e) == Cl("tables", e.got = e.want) \cup Cl("rates", Tab(e.sfh_tot, Rates(e, TotalOf, 0, -1)) /\ Tab(e.sfh_in_situ, Rates(e, InSituOf, 0, -1)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "extract" -> Extract(e)
           [] e.op = "cli" -> Extract(e)
           [] e.op = "mah_tables" -> MahTables(e)
           [] e.op = "target" -> Target(e)
           [] e.op = "block" -> Target(e)
           [] e.op = "combined" -> Combined(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
