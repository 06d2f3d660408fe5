----------------------------- MODULE FitTargets -----------------------------
(***************************************************************************)
(* What a star formation history is fitted to, which of its snapshots      *)
(* count, and the objective.                                               *)
(*                                                                         *)
(* opt = [dlogm, tmin, mmin, delay, floor]                                 *)
(***************************************************************************)
EXTENDS Histories
DefaultOpt == [dlogm |-> R("3.5"), tmin |-> R("1.0"), mmin |-> R("7.0"), delay |-> R("1.0"), floor |-> R("1e-12")]
IGNORED == R("1e10")
KEPT == FOne
FAVOURED == FHalf

FstarTarget(fs, ms, floor) ==
    LET n == Len(ms)
        a(i) == FMax(fs[i] (/) ms[i], floor) (.) ms[i]
        av == Vec(n, a)
        low == FSeqMax(av) (/) R("1000.0")
        b(i) == IF av[i] \prec low THEN low ELSE av[i]
    IN Vec(n, b)
Log10Vec(v) == LET f(i) == FLog10(v[i]) IN Vec(Len(v), f)

\* snapshots which may count
InFit(ts, lm, opt) ==
    LET n == Len(ts)
        mmin == FMin(lm[n] (-) FHalf, opt.mmin)
        f(i) == (lm[n] (-) opt.dlogm) \prec lm[i] /\ mmin \prec lm[i] /\ opt.tmin \preceq ts[i]
    IN Vec(n, f)
WeightMass(ts, lm, opt) ==
    LET n == Len(ts)  in == InFit(ts, lm, opt)
        f(i) == IF (lm[n] (-) lm[i]) \prec R("0.1") THEN FAVOURED ELSE IF in[i] THEN KEPT ELSE IGNORED
    IN Vec(n, f)
WeightRate(ts, lm, lf, opt) ==
    LET n == Len(ts)  in == InFit(ts, lm, opt)  top == FSeqMax(lf)
        f(i) == IF ts[i] \prec (opt.delay (+) R("0.01")) THEN IGNORED
                ELSE IF (top (-) lf[i]) \prec R("0.1") THEN FAVOURED
                ELSE IF in[i] THEN KEPT ELSE IGNORED
    IN Vec(n, f)
\* is some decision closer to its threshold than eps?
Marginal(ts, lm, lf, opt, eps) ==
    LET n == Len(ts)  mmin == FMin(lm[n] (-) FHalf, opt.mmin)  top == FSeqMax(lf)
        near(a, b) == FAbs(a (-) b) \preceq eps
    IN [i \in 1..n |-> \/ near(lm[n] (-) opt.dlogm, lm[i]) \/ near(mmin, lm[i]) \/ near(opt.tmin, ts[i])
                       \/ near(lm[n] (-) lm[i], R("0.1")) \/ near(ts[i], opt.delay (+) R("0.01"))
                       \/ near(top (-) lf[i], R("0.1"))]

FirstMax(v) == LET top == FSeqMax(v) IN CHOOSE i \in 1..Len(v) : FEq(v[i], top) /\ \A j \in 1..(i-1) : ~FEq(v[j], top)
Targets(ts, sfh, opt) ==
    LET ms == CumMass(ts, sfh)
        fs == FstarTarget(Fstar(ts, ms, opt.delay), ms, opt.floor)
        lm == Log10Vec(ms)
        lf == Log10Vec(fs)
        c(i) == FMax(sfh[i], SFR_MIN)
    IN [ms |-> ms, lm |-> lm, sfh |-> Vec(Len(ts), c), lf |-> lf,
        w |-> WeightMass(ts, lm, opt), wf |-> WeightRate(ts, lm, lf, opt),
        lgtmax |-> FLog10(ts[FirstMax(lf)])]

----------------------------------------------------------------------------
\* The objective at physical parameters gal against targets T
Sq(x) == x (.) x
Penalty(gal, T) == Sigmoid(gal[5] (-) T.lgtmax, FZero, R("50.0"), R("100.0"), FZero)
Terms(gal, mah, ts, T, opt, lgt0, fb) ==
    LET n == Len(ts)
        sfh == SfhTable(gal, mah, ts, lgt0, fb)
        ms == CumMass(ts, sfh)
        fs == Fstar(ts, ms, opt.delay)
        low(i) == ms[i] (.) (opt.floor (/) R("10.0"))
        lf(i) == FLog10(FMax(fs[i], low(i)))
        res(i) == FClip((R("1e8") (.) (FMax(sfh[i], low(i)) (-) T.sfh[i])) (/) T.ms[i], R("-1.0"), FOne)
        em(i) == Sq((FLog10(ms[i]) (-) T.lm[i]) (/) T.w[i])
        ef(i) == Sq((lf(i) (-) T.lf[i]) (/) T.wf[i])
        er(i) == Sq(res(i) (/) T.w[i])
    IN [mass |-> R("30.0") (.) (FSumRange(em, 1, n) (/) FInt(n)),
        rate |-> FSumRange(ef, 1, n) (/) FInt(n),
        resid |-> FSumRange(er, 1, n) (/) FInt(n),
        final |-> FHalf (.) Sq(lf(n) (-) T.lf[n]),
        penalty |-> Penalty(gal, T)]
Total(t) == (((t.mass (+) t.rate) (+) t.resid) (+) t.final) (+) t.penalty
Objective(gal, mah, ts, T, opt, lgt0, fb) == Total(Terms(gal, mah, ts, T, opt, lgt0, fb))
=============================================================================
