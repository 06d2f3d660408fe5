----------------------------- MODULE Trace_C02 -----------------------------
(* Population results are the stack of single-galaxy results.              *)
EXTENDS HistTrace

\* an event: one row i of a population call `what` and the single call
FieldsOf(what) == CASE what = "sfh" -> <<"sfh">>
                    [] what = "smh" -> <<"sfh", "smh">>
                    [] what = "gas" -> <<"sfh", "smh", "dmgash", "mgash">>
Tol(e) == SfrTolOf(Single(e), e.gal)
RowClose(e, f) ==
    LET p == e.pop[f]  s == e.one[f]  n == e.nt
        \* gas is a difference of integrals: compare on the scale of those
        mscale(i) == IF e.what = "gas" THEN FAbs(e.one["mgash"][i]) (+) FAbs(e.one["smh"][i]) ELSE FAbs(s[i])
        top == LET g(i) == mscale(i) IN FMaxRange(g, 1, n)
        dt == IF e.what = "gas" THEN FSeqMin(DtTable(e.ts)) ELSE FOne
    IN IsVec(p, n) /\ IsVec(s, n) /\ \A i \in 1..n :
        CASE f = "sfh" -> Close(p[i], s[i], Tol(e), R("1e-20"))
          [] f = "smh" -> Close(p[i], s[i], Tol(e), R("1e-12") (.) FAbs(s[n]))
          [] f = "mgash" -> Close(p[i], s[i], Tol(e), Tol(e) (.) mscale(i))
          [] f = "dmgash" -> Close(p[i], s[i], Tol(e), (FTwo (.) (Tol(e) (.) top)) (/) (dt (.) YR_PER_GYR))
RowClauses(e) ==
    Then(Cl("rows", e.nrows = e.ngal) \cup Cl("fields", e.fields = FieldsOf(e.what) /\ e.fields1 = FieldsOf(e.what)),
         UNION {Cl("row_" \o FieldsOf(e.what)[k], RowClose(e, FieldsOf(e.what)[k])) : k \in 1..Len(FieldsOf(e.what))}
         \cup Cl("value", SfhClose(e, e.gal, e.mah, e.ts, e.lgt0, e.fb, e.pop["sfh"])))

Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "poprow" -> RowClauses(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
