----------------------------- MODULE Trace_C03 -----------------------------
(* Recorded quenching factors along increasing times.                      *)
(* e.u = <<lg_qt, qlglgdt, lg_drop, lg_rejuv>>, e.lgt, e.out               *)
EXTENDS TraceBase, Galaxy

W(e) == FPow10(e.q[2])
H(e) == W(e) (/) R("12.0")
\* error of log10 factor: rounding of lgt is amplified by 1/h
Eps(e) == IF e.tight THEN R("1e-11") (+) (R("4e-15") (/) H(e)) ELSE R("2e-6") (+) (R("1.5e-6") (/) H(e))
Edge(e) == IF e.tight THEN R("1e-12") ELSE R("1e-6") (.) (FOne (+) W(e))
Clauses(e) ==
    LET n == Len(e.lgt)
        start == e.q[1] (-) (FHalf (.) W(e))
        stop == e.q[1] (+) (FHalf (.) W(e))
        eps == Eps(e)
        edge == Edge(e)
        want(i) == LogQuench(e.lgt[i], e.q[1], W(e), e.q[3], e.q[4])
        lg(i) == FLog10(e.out[i])
    IN Then(Cl("shape", IsVec(e.out, n)),
        Cl("range", \A i \in 1..n : FZero \prec e.out[i] /\ e.out[i] \preceq (FOne (+) eps))
        \cup Cl("untouched_before", \A i \in 1..n : e.lgt[i] \preceq (start (-) edge) => Close(e.out[i], FOne, FZero, IF e.tight THEN R("1e-12") ELSE R("1e-6")))
        \cup Cl("settled_after", \A i \in 1..n : (stop (+) edge) \preceq e.lgt[i] => Close(lg(i), e.q[4], FZero, IF e.tight THEN R("1e-12") ELSE R("5e-6")))
        \cup Cl("shape_value", \A i \in 1..n : Close(lg(i), want(i), FZero, eps))
        \cup Cl("monotone", \A i \in 1..(n-1) : e.lgt[i] \preceq e.lgt[i+1] =>
                /\ (e.lgt[i+1] \preceq e.q[1] => lg(i+1) \preceq (lg(i) (+) eps))
                /\ (e.q[1] \preceq e.lgt[i] => lg(i) \preceq (lg(i+1) (+) eps))))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op \in {"quench", "quench_u", "quench_sfr"} -> Clauses(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
