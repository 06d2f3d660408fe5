------------------------------- MODULE MC_C18 -------------------------------
(* A satellite ages after infall: its quenched probability as time passes.  *)
EXTENDS Population, TLC
CONSTANTS NStep
VARIABLES par, lgmu, lgmhost, q0, k, prob
vars == <<par, lgmu, lgmhost, q0, k, prob>>
Base == [n \in {SatNames[i] : i \in 1..9} |-> PopDefault[PopIdx[n]]]
Variants == { Base,
    [Base EXCEPT !.td_mlo = R("-3"), !.td_mhi = R("8")],
    [Base EXCEPT !.lgmu_lo_mh_lo = R("0.95"), !.lgmu_hi_mh_lo = R("0.02"), !.lgmu_lo_mh_hi = R("0.4"), !.lgmu_hi_mh_hi = R("0.001")],
    [Base EXCEPT !.qp_lgmh_crit = R("11.2"), !.td_lgmhc = R("14.8"), !.qphi_lgmu_crit = R("-0.2")] }
Mus == {R("-100"), R("-4"), R("-1.5"), R("-0.3"), R("100")}
Hosts == {R("-50"), R("11"), R("13"), R("14.9"), R("80")}
Q0s == {R("0"), R("0.2"), R("0.999"), R("1")}
\* one step is a fifth of a billion years, starting long before infall
TimeOf(i) == IF i = 0 THEN R("-100") ELSE (FInt(i) (/) R("2")) (-) R("6")
Prob(i) == SatQprob(par, lgmu, lgmhost, TimeOf(i), q0)
Init == par \in Variants /\ lgmu \in Mus /\ lgmhost \in Hosts /\ q0 \in Q0s /\ k = 0 /\ prob = Prob(0)
Age == k < NStep /\ k' = k + 1 /\ prob' = SatQprob(par, lgmu, lgmhost, TimeOf(k + 1), q0)
       /\ (k' = NStep => PrintT(<<"SCEN", FStr(lgmu), FStr(lgmhost), FStr(q0), NStep>>))
       /\ UNCHANGED <<par, lgmu, lgmhost, q0>>
Spec == Init /\ [][Age]_vars
Between == (q0 (-) R("1e-15")) \preceq prob /\ prob \preceq R("1.000000000000001")
BeforeInfall == k = 0 => Close(prob, q0, R("1e-12"), R("1e-12"))
Saturated == q0 = FOne => Close(prob, FOne, FZero, R("1e-15"))
\* corners of the plane of mass ratio and host mass
Corner == (k = NStep /\ lgmu \in {R("-100"), R("100")} /\ lgmhost \in {R("-50"), R("80")}) =>
    LET c == IF FZero \prec lgmhost THEN (IF FZero \prec lgmu THEN par.lgmu_hi_mh_hi ELSE par.lgmu_lo_mh_hi)
             ELSE (IF FZero \prec lgmu THEN par.lgmu_hi_mh_lo ELSE par.lgmu_lo_mh_lo)
    IN Close(QprobHi(par, lgmu, lgmhost), c, R("1e-10"), R("1e-10"))
DelayBetween == LET t == TDelay(par, lgmhost) IN
    FMin(par.td_mlo, par.td_mhi) \preceq t /\ t \preceq FMax(par.td_mlo, par.td_mhi)
HalfAtDelay == Close(SatFraction(par, lgmu, lgmhost, TDelay(par, lgmhost)), FHalf (.) QprobHi(par, lgmu, lgmhost), R("1e-12"), FZero)
NeverLess == [][prob \preceq (prob' (+) R("1e-15"))]_vars
=============================================================================
