----------------------------- MODULE Trace_C18 -----------------------------
EXTENDS TraceBase, Population
Eps(e) == IF IsX64(e) THEN R("1e-14") ELSE R("3e-7")
Tol(e) == IF IsX64(e) THEN R("1e-10") ELSE R("1e-4")
\* a satellite at increasing times since infall
Series(e) ==
    LET n == Len(e.gyr) IN
    Then(Cl("shape", Len(e.q) = n /\ Len(e.frac) = n),
         Cl("adds", \A i \in 1..n : (e.q0 (-) Eps(e)) \preceq e.q[i])
         \cup Cl("probability", \A i \in 1..n : FZero \preceq e.q[i] /\ e.q[i] \preceq (FOne (+) Eps(e)))
         \cup Cl("grows", \A i \in 1..(n - 1) : e.q[i] \preceq (e.q[i + 1] (+) Eps(e)))
         \cup Cl("before_infall", \A i \in 1..n : e.gyr[i] \preceq R("-50") => Close(e.q[i], e.q0, FZero, Eps(e)))
         \cup Cl("fraction", \A i \in 1..n : Close(e.frac[i], SatFraction(e.p, e.lgmu, e.lgmhost, e.gyr[i]), FZero, Tol(e)))
         \cup Cl("added_fraction_of_the_rest", \A i \in 1..n : Close(e.q[i], AddQuench(e.q0, e.frac[i]), FZero, Eps(e) (.) R("4.0")))
         \cup Cl("value", \A i \in 1..n : Close(e.q[i], SatQprob(e.p, e.lgmu, e.lgmhost, e.gyr[i], e.q0), FZero, Tol(e))))
\* long after infall: the asymptotic fraction, and its corners
Plane(e) ==
    LET n == Len(e.lgmu)
        \* between corner values of the configuration
        lo == FMin(FMin(e.p.lgmu_lo_mh_lo, e.p.lgmu_hi_mh_lo), FMin(e.p.lgmu_lo_mh_hi, e.p.lgmu_hi_mh_hi))
        hi == FMax(FMax(e.p.lgmu_lo_mh_lo, e.p.lgmu_hi_mh_lo), FMax(e.p.lgmu_lo_mh_hi, e.p.lgmu_hi_mh_hi))
    IN Cl("asymptote", \A i \in 1..n : Close(e.frac[i], QprobHi(e.p, e.lgmu[i], e.lgmhost[i]), FZero, Tol(e)))
       \cup Cl("within_corners", \A i \in 1..n : (lo (-) Tol(e)) \preceq e.frac[i] /\ e.frac[i] \preceq (hi (+) Tol(e)))
       \cup Cl("corners", /\ Close(e.corner[1], e.p.lgmu_lo_mh_lo, FZero, Tol(e)) /\ Close(e.corner[2], e.p.lgmu_hi_mh_lo, FZero, Tol(e))
                          /\ Close(e.corner[3], e.p.lgmu_lo_mh_hi, FZero, Tol(e)) /\ Close(e.corner[4], e.p.lgmu_hi_mh_hi, FZero, Tol(e)))
       \* half of the asymptotic fraction at the delay
       \cup Cl("delay", \A i \in 1..n : Close(e.half[i], SatFraction(e.p, e.lgmu[i], e.lgmhost[i], e.tdelay[i]), FZero, Tol(e))
                                         /\ Close(e.tdelay[i], TDelay(e.p, e.lgmhost[i]), FZero, Tol(e))
                                         /\ Close(e.half[i], FHalf (.) QprobHi(e.p, e.lgmu[i], e.lgmhost[i]), FZero, Tol(e) (.) R("20.0")))
Same2(e) == Cl("array_is_elements", Len(e.arr) = Len(e.one) /\ VecClose(e.arr, e.one, Eps(e) (.) R("10.0"), Eps(e)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "series" -> Series(e)
           [] e.op = "plane" -> Plane(e)
           [] e.op = "elements" -> Same2(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
