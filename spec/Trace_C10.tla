----------------------------- MODULE Trace_C10 -----------------------------
EXTENDS HistTrace, FitTargets
Opt(e) == [dlogm |-> e.dlogm, tmin |-> e.tmin, mmin |-> e.mmin, delay |-> e.delay, floor |-> e.floor]
Slack(e) == IF e.exact THEN R("1e-12") ELSE IF IsX64(e) THEN R("1e-10") ELSE R("2e-5")
\* exact lattice scenarios decide thresholds exactly, except the 0.1 dex and 0.01 Gyr ones
WeightsOk(e) ==
    LET n == Len(e.ts)
        opt == Opt(e)
        w == WeightMass(e.ts, e.lm, opt)
        wf == WeightRate(e.ts, e.lm, e.lf, opt)
        marg == IF e.exact THEN [i \in 1..n |-> FALSE] ELSE Marginal(e.ts, e.lm, e.lf, opt, Slack(e))
        same(a, b) == Close(a, b, R("1e-6"), FZero)
    IN Then(Cl("shape", IsVec(e.w, n) /\ IsVec(e.wf, n)),
         Cl("weight_mass", \A i \in 1..n : marg[i] \/ same(e.w[i], w[i]))
         \cup Cl("weight_rate", \A i \in 1..n : marg[i] \/ same(e.wf[i], wf[i])))
Eps(e) == IF IsX64(e) THEN R("4e-15") ELSE R("1e-6")
TargetsOk(e) ==
    LET n == Len(e.ts)
        fs == Fstar(e.ts, e.ms, e.delay)
        ft == FstarTarget(fs, e.ms, e.floor)
        rt == IF IsX64(e) THEN R("1e-10") ELSE R("1e-5")
        slope == IF n = 1 THEN FZero ELSE
            LET s(i) == FAbs((e.ms[i+1] (-) e.ms[i]) (/) (e.ts[i+1] (-) e.ts[i])) IN FMaxRange(s, 1, n - 1)
        atol(i) == (Eps(e) (.) (FAbs(e.ms[n]) (+) (slope (.) (e.ts[i] (+) e.delay)))) (/) (e.delay (.) YR_PER_GYR)
        f(i) == FPow10(e.lf[i])
        lmax == FSeqMax(e.lf)
    IN Then(Cl("shape", IsVec(e.ms, n) /\ IsVec(e.lm, n) /\ IsVec(e.sfh_t, n) /\ IsVec(e.lf, n)),
         Cl("mass", CumClose(e, e.ts, e.sfh, e.ms))
         \cup Cl("log_mass", \A i \in 1..n : Close(e.lm[i], FLog10(e.ms[i]), FZero, R("10") (.) rt))
         \cup Cl("rate_floor", \A i \in 1..n : Close(e.sfh_t[i], FMax(e.sfh[i], SFR_MIN), rt, FZero))
         \cup Cl("averaged_rate", \A i \in 1..n : Close(f(i), ft[i], R("100") (.) rt, R("4") (.) atol(i)))
         \cup Cl("averaged_floor", \A i \in 1..n : (lmax (-) R("3.0001")) \preceq e.lf[i])
         \cup Cl("peak_time", \E i \in 1..n : Close(e.lgtmax, FLog10(e.ts[i]), R("1e-6"), R("1e-7"))
                                            /\ Close(e.lf[i], lmax, FZero, R("10") (.) rt))
         \cup Cl("options", FEq(e.delay_out, e.delay) /\ Close(e.floor_out, e.floor, rt, FZero)
                            /\ Close(e.lgt0_out, e.lgt0, rt, FZero) /\ Close(e.fb_out, e.fb, rt, FZero)
                            /\ VecClose(e.ts_out, e.ts, rt, FZero) /\ VecClose(e.mah_out, e.mah, rt, FZero))
         \cup WeightsOk(e))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "weights" -> WeightsOk(e)
           [] e.op = "targets" -> TargetsOk(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
