----------------------------- MODULE Trace_C24 -----------------------------
EXTENDS TraceBase, Pdf, Deriv
Eps(e) == IF IsX64(e) THEN R("1e-12") ELSE R("1e-5")
\* value of a loss given prediction and target
LossV(e) ==
    LET want == Loss(e.pred, e.target)
        f(i) == FAbs(e.pred[i]) (+) FAbs(e.target[i])
        big == FMaxRange(f, 1, Len(e.pred))
        \* rounding of a prediction evaluated inside the loss
        atol == LossScale (.) (Eps(e) (.) Eps(e)) (.) (big (.) big)
        mixed == LossScale (.) (Eps(e) (.) big) (.) FSqrt(want (/) LossScale)
    IN Cl("finite", FFin(e.loss))
       \cup Cl("nonnegative", FZero \preceq e.loss)
       \cup Cl("scaled_mse", Close(e.loss, want, Eps(e), (atol (+) mixed) (.) R("100.0")))
       \cup Cl("zero_iff_equal", e.same => e.loss \preceq (atol (.) R("100.0")))
       \cup Cl("positive_if_different", (\E i \in 1..Len(e.pred) : (Eps(e) (.) R("100.0") (.) big) \prec FAbs(e.pred[i] (-) e.target[i])) => FZero \prec e.loss)
Combined(e) == Cl("sum_of_losses", Close(e.loss, FSum(e.parts), Eps(e) (.) R("100.0"), Eps(e) (.) Eps(e)))
\* wrapper(flat) against the named function and its gradient
Wrap(e) ==
    LET big == FMaxRange(LAMBDA i : FAbs(e.named_grads[i]), 1, Len(e.named_grads)) IN
    Cl("same_loss", Close(e.loss, e.named_loss, Eps(e) (.) R("100.0"), Eps(e) (.) Eps(e)))
    \cup Then(Cl("flat_length", IsVec(e.grads, Len(e.named_grads))),
              Cl("gradient_order", VecClose(e.grads, e.named_grads, Eps(e) (.) R("1000.0"), Eps(e) (.) R("1000.0") (.) big)))
Grad(e) ==
    Then(Cl("flat_length", IsVec(e.grads, Len(e.samples))),
         Cl("finite", AllFin(e.grads))
         \cup {("slope_" \o e.names[j]) : j \in {j \in 1..Len(e.samples) :
                   ~IsSlope(e.grads[j], e.samples[j], e.h, R("1e-14") (.) FAbs(e.samples[j][4]) (+) R("1e-17"), R("1e-5"))}})
Sum2(e) == LET big == FMaxRange(LAMBDA i : FAbs(e.want[i]), 1, Len(e.want)) IN
           Then(Cl("flat_length", IsVec(e.grads, Len(e.want))),
                Cl("gradient_adds", VecClose(e.grads, e.want, Eps(e) (.) R("1000.0"), Eps(e) (.) R("1000.0") (.) big)))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "loss" -> LossV(e)
           [] e.op = "combined" -> Combined(e)
           [] e.op = "wrapper" -> Wrap(e)
           [] e.op = "gradient" -> Grad(e)
           [] e.op = "gradient_sum" -> Sum2(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
