----------------------------- MODULE Trace_C20 -----------------------------
EXTENDS TraceBase, Population
Wid(n) == PopHi[n] (-) PopLo[n]
TolV(e) == IF IsX64(e) THEN R("1e-12") ELSE R("2e-6")   \* of the width and the value
TolOf(e, n) == TolV(e) (.) (Wid(n) (+) FMax(FAbs(PopLo[n]), FAbs(PopHi[n])))
NearLo(n, p) == (p (-) PopLo[n]) (/) Wid(n)
NearHi(n, p) == (PopHi[n] (-) p) (/) Wid(n)
EdgeU(e) == IF IsX64(e) THEN R("1e-6") ELSE R("1e-2")
TolUU(e) == IF IsX64(e) THEN R("1e-6") ELSE R("0.05")
\* e.idx: the parameters involved, numbered as in PopNames
Bnd(e) ==
    LET m == Len(e.idx) IN
    Then(Cl("names", e.names_ok /\ Len(e.p) = m /\ Len(e.back) = m),
         Cl("inside", \A k \in 1..m : PopLo[e.idx[k]] (-) TolOf(e, e.idx[k]) \preceq e.p[k] /\ e.p[k] \preceq PopHi[e.idx[k]] (+) TolOf(e, e.idx[k]))
         \cup Cl("value", \A k \in 1..m : Close(e.p[k], PopBound(e.idx[k], e.u[k]), FZero, TolOf(e, e.idx[k])))
         \cup Cl("inverse", \A k \in 1..m :
                 (EdgeU(e) \prec NearLo(e.idx[k], e.p[k]) /\ EdgeU(e) \prec NearHi(e.idx[k], e.p[k]))
                 => Close(e.back[k], e.u[k], FZero, TolUU(e))))
Unb(e) ==
    LET m == Len(e.idx) IN
    Then(Cl("names", e.names_ok /\ Len(e.u) = m /\ Len(e.back) = m),
         Cl("finite", AllFin(e.u))
         \cup Cl("round_trip", \A k \in 1..m : Close(e.back[k], e.p[k], FZero, TolOf(e, e.idx[k]) (.) R("4.0")))
         \cup Cl("unbound_value", \A k \in 1..m :
                 (EdgeU(e) \prec NearLo(e.idx[k], e.p[k]) /\ EdgeU(e) \prec NearHi(e.idx[k], e.p[k]))
                 => Close(e.u[k], PopUnbound(e.idx[k], e.p[k]), FZero, TolUU(e))))
\* two unbounded vectors which differ in entry e.j alone
One(e) == Cl("independent", \A k \in 1..Len(e.a) : k # e.j => FEq(e.a[k], e.b[k]))
          \cup Cl("monotone", e.a[e.j] \preceq e.b[e.j] /\ (e.strict => e.a[e.j] \prec e.b[e.j]))
Over(e) ==
    LET m == Len(e.default)
        Given(k) == {q \in 1..Len(e.names) : e.names[q] = e.fields[k]}
    IN Then(Cl("names", e.names_ok /\ Len(e.got) = m /\ Len(e.fields) = m),
            Cl("replaced", \A k \in 1..m : \A q \in Given(k) : FEq(e.got[k], e.vals[q]))
            \cup Cl("kept", \A k \in 1..m : Given(k) = {} => FEq(e.got[k], e.default[k])))
Calib(e) ==
    Then(Cl("complete", e.names_ok /\ Len(e.p) = NPop /\ Len(e.u) = NPop),
         Cl("inside", \A k \in 1..NPop : PopLo[k] \preceq e.p[k] /\ e.p[k] \preceq PopHi[k])
         \cup Cl("finite", AllFin(e.u))
         \cup Cl("own_unbounded", \A k \in 1..NPop : Close(PopBound(k, e.u[k]), e.p[k], FZero, TolOf(e, k) (.) R("4.0")))
         \cup Cl("bounded_form", \A k \in 1..NPop : Close(e.back[k], e.p[k], FZero, TolOf(e, k) (.) R("4.0")))
         \cup Cl("same_names", Has(e, "byname") => \A k \in 1..Len(e.byname) : Close(e.byname[k], e.p[k], R("1e-6"), FZero)))
Table(e) == Cl("names", Len(e.names) = NPop /\ \A k \in 1..Len(e.names) : e.names[k] \in DOMAIN PopIdx)
            \cup Cl("bounds", \A k \in 1..Len(e.names) : LET n == PopIdx[e.names[k]] IN FEq(e.lo[k], PopLo[n]) /\ FEq(e.hi[k], PopHi[n]))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "bound" -> Bnd(e)
           [] e.op = "unbound" -> Unb(e)
           [] e.op = "one" -> One(e)
           [] e.op = "override" -> Over(e)
           [] e.op = "calib" -> Calib(e)
           [] e.op = "table" -> Table(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
