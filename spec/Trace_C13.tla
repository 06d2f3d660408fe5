----------------------------- MODULE Trace_C13 -----------------------------
EXTENDS TraceBase, Catalog
\* a range of a flat file: every requested column, exactly those rows
Flat(e) ==
    Then(Cl("keys", {e.keys_out[i] : i \in 1..Len(e.keys_out)} = {e.keys_in[i] : i \in 1..Len(e.keys_in)}
                    /\ Len(e.keys_out) = Len(e.keys_in)),
         UNION {Cl("rows", e.got[e.keys_in[i]] = Rows(e.file[e.keys_in[i]], e.lo, e.hi)) : i \in 1..Len(e.keys_in)})
Tol(e) == IF e.single THEN R("2e-5") ELSE R("1e-9")
Mah(e) ==
    LET stored(i) == [mah |-> e.mah[i], loss |-> e.loss[i], npts |-> e.npts[i]]
        all == [i \in 1..Len(e.loss) |-> stored(i)]
        want == Rows(all, e.lo, e.hi)
        n == Len(want)
    IN Then(Cl("rows", Len(e.got_mah) = n /\ Len(e.got_logmp0) = n /\ Len(e.got_loss) = n /\ Len(e.got_npts) = n)
            \cup Cl("fields", e.fields = MahNames),
         Cl("parameters", \A i \in 1..n : ~Unfit(want[i], e.nmin) => VecSame(e.got_mah[i], want[i].mah))
         \cup Cl("masked", \A i \in 1..n : Unfit(want[i], e.nmin) => \A k \in 1..5 : FEq(e.got_mah[i][k], MASKED))
         \cup Cl("present_mass", \A i \in 1..n : Close(e.got_logmp0[i], PresentMass(want[i], e.nmin, e.default, e.t0), Tol(e), FZero))
         \cup Cl("loss", \A i \in 1..n : FEq(e.got_loss[i], want[i].loss))
         \cup Cl("npts", \A i \in 1..n : e.got_npts[i] = want[i].npts))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "flat" -> Flat(e)
           [] e.op = "mah" -> Mah(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
