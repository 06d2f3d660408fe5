----------------------------- MODULE Trace_C11 -----------------------------
EXTENDS HistTrace, FitTargets
Opt(e) == [dlogm |-> e.dlogm, tmin |-> e.tmin, mmin |-> e.mmin, delay |-> e.delay, floor |-> e.floor]
\* targets: from the inputs themselves, or (when a decision is marginal, or in
\* single precision) from the data which the code prepared and C10 judges
Mine(e) == Targets(e.ts, e.sfh, Opt(e))
Theirs(e) == [ms |-> e.ms, lm |-> e.lm, sfh |-> e.sfh_t, lf |-> e.lf, w |-> e.w, wf |-> e.wf, lgtmax |-> e.lgtmax]
Sound(e) == LET t == Mine(e)  m == Marginal(e.ts, t.lm, t.lf, Opt(e), R("1e-9"))
            IN IsX64(e) /\ (\A i \in 1..Len(e.ts) : ~m[i]) /\ Close(e.lgtmax, t.lgtmax, FZero, R("1e-9"))
T(e) == IF Sound(e) THEN Mine(e) ELSE Theirs(e)
Loss(e, u, t) == Objective(BoundGal(u), e.mah, e.ts, t, Opt(e), e.lgt0, e.fb)
Tol(e) == IF IsX64(e) THEN R("1e-6") ELSE R("2e-2")
ATol(e) == IF IsX64(e) THEN R("1e-9") ELSE R("2e-2")
Value(e) == Cl("objective", Close(e.out, Loss(e, e.u, T(e)), Tol(e), ATol(e)))
\* gradient: central differences of the specification at two step sizes;
\* judged where the objective is smooth on that scale
Shift(u, k, h) == [u EXCEPT ![k] = @ (+) h]
Slope(e, t, k, h) == ((Loss(e, Shift(e.u, k, h), t) (-) Loss(e, Shift(e.u, k, FNeg(h)), t)) (/) (FTwo (.) h))
Gradient(e) ==
    LET t == T(e)
        f(k) == LET a == Slope(e, t, k, R("2e-4"))  b == Slope(e, t, k, R("1e-4"))
                    err == R("30.0") (.) FAbs(a (-) b)
                    s == (R("1e-5") (.) FAbs(b)) (+) (R("1e-8") (.) (FOne (+) FAbs(e.out)))
                IN IF (R("0.02") (.) (FAbs(b) (+) R("1e-4"))) \prec err THEN TRUE   \* a kink nearby
                   ELSE Close(e.grad[k], b, FZero, err (+) s)
    IN Then(Cl("gradient_shape", IsVec(e.grad, 8)), Cl("gradient", \A k \in 1..8 : f(k)))
\* in single precision the objective is too rough for differences: only structure
Objective_(e) == Value(e) \cup (IF IsX64(e) THEN Gradient(e) ELSE Cl("gradient_shape", IsVec(e.grad, 8) /\ AllFin(e.grad)))
Fit(e) ==
    Then(Cl("fields", e.fields = GalNames) \cup Cl("success", e.success \in {1, -1}),
         Cl("in_bounds", GalInBoundsTol(e.p, IF IsX64(e) THEN R("1e-12") ELSE R("1e-5")))
         \cup (IF e.success = 1
               THEN Cl("reported_loss", Close(e.loss, Objective(e.p, e.mah, e.ts, T(e), Opt(e), e.lgt0, e.fb), FTwo (.) Tol(e), FTwo (.) ATol(e)))
               ELSE Cl("fallback_loss", Close(e.loss, R("999.99"), R("1e-6"), FZero))))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "objective" -> Objective_(e)
           [] e.op = "fit" -> Fit(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
