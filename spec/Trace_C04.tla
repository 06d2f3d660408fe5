----------------------------- MODULE Trace_C04 -----------------------------
(* Recorded bounding / unbounding of galaxy parameters, per element.       *)
EXTENDS TraceBase, Galaxy

UNames == LET f(i) == "u_" \o GalNames[i] IN Vec(8, f)
Scale(i) == FMax(FAbs(GalLo[i]), FAbs(GalHi[i]))
TolB(e) == IF IsX64(e) THEN R("1e-12") ELSE R("1e-6")
\* float32 arguments k(u - x0) are themselves rounded: slope 1 at most
TolU(e, i) == IF IsX64(e) THEN R("1e-13") (.) FAbs(e.u[i]) ELSE R("3e-7") (.) (FAbs(e.u[i]) (+) FTwo)
Bounding(e) ==
    LET want == BoundGal(e.u) IN
    Then(Cl("names", e.fields = GalNames) \cup Cl("shape", IsVec(e.p, 8)),
        Cl("in_bounds", \A i \in 1..8 : (GalLo[i] (-) (TolB(e) (.) Scale(i))) \preceq e.p[i] /\ e.p[i] \preceq (GalHi[i] (+) (TolB(e) (.) Scale(i))))
        \cup Cl("rejuv_above_drop", e.p[7] \preceq (e.p[8] (+) (TolB(e) (.) R("3.0"))))
        \cup UNION {Cl("value_" \o GalNames[i],
              Close(e.p[i], want[i], FZero, (TolB(e) (.) Scale(i)) (+) (FTwo (.) TolU(e, i)) (+) (IF i = 8 THEN TolU(e, 7) ELSE FZero)))
              : i \in 1..8})
\* unbounding: the unbounded value is between those of slightly smaller and
\* slightly larger parameters
Nudge(p, i, d) == [p EXCEPT ![i] = @ (+) d]
Unbounding(e) ==
    LET eps == IF IsX64(e) THEN R("1e-13") ELSE R("1e-6")
        lo(i) == UnboundGal(Nudge(e.p, i, FNeg(eps (.) Scale(i))))[i]
        hi(i) == UnboundGal(Nudge(e.p, i, eps (.) Scale(i)))[i]
        slack(i) == IF i = 8 THEN
             FAbs(UnboundGal(Nudge(e.p, 7, eps (.) Scale(7)))[8] (-) UnboundGal(Nudge(e.p, 7, FNeg(eps (.) Scale(7))))[8])
             ELSE FZero
        rel(i) == eps (.) (R("20.0") (+) FAbs(e.u[i]))
    IN Then(Cl("unames", e.fields = UNames) \cup Cl("shape", IsVec(e.u, 8)),
        UNION {Cl("uvalue_" \o GalNames[i],
            (((lo(i) (-) slack(i)) (-) rel(i)) \preceq e.u[i]) /\ (e.u[i] \preceq ((hi(i) (+) slack(i)) (+) rel(i)))) : i \in 1..8})
\* u -> p -> u and p -> u -> p
RoundU(e) == LET t == IF IsX64(e) THEN R("1e-9") ELSE R("3e-3") IN
    UNION {Cl("round_u_" \o GalNames[i], Close(e.back[i], e.u[i], t, t)) : i \in 1..8}
RoundP(e) == LET t == IF IsX64(e) THEN R("1e-11") ELSE R("3e-6") IN
    UNION {Cl("round_p_" \o GalNames[i], Close(e.back[i], e.p[i], FZero, t (.) Scale(i))) : i \in 1..8}
\* the package's default unbounded parameters are those of its defaults
Defaults(e) == LET t == IF IsX64(e) THEN R("1e-9") ELSE R("2e-5")  w == UnboundGal(GalDefault) IN
    Cl("default_names", e.names = GalNames /\ e.unames = UNames)
    \cup Cl("default_values", \A i \in 1..8 : Close(e.p[i], GalDefault[i], R("1e-7"), FZero))
    \cup Cl("default_u", \A i \in 1..8 : Close(e.u[i], w[i], t, t))
    \cup Cl("unquenched", LET b == BoundGal(Vec(4, LAMBDA i : FZero) \o Vec(4, LAMBDA i : U_UNQUENCHED)) IN
            \A i \in 1..4 : Close(e.uq[i], U_UNQUENCHED, FZero, R("1e-7")) /\ Close(e.q[i], b[4 + i], R("1e-5"), R("1e-6")))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "bound" -> Bounding(e)
           [] e.op = "unbound" -> Unbounding(e)
           [] e.op = "round_u" -> RoundU(e)
           [] e.op = "round_p" -> RoundP(e)
           [] e.op = "defaults" -> Defaults(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
