----------------------------- MODULE Trace_C25 -----------------------------
(* A recorded line: the derivative of every entry of a result with respect  *)
(* to one parameter, and a sample of the result around the parameter.       *)
EXTENDS TraceBase, Deriv
Tol(e) == IF IsX64(e) THEN R("1e-6") ELSE R("1e-2")
At(e, j) == [q \in 1..7 |-> e.samples[q][j]]
\* rounding of a value: e.rel is relative to it, e.abs absolute
Noise(e, j) == (e.rel (.) FAbs(e.samples[4][j])) (+) e.abs
Ok(e, j) == IsSlope(e.grad[j], At(e, j), e.h, Noise(e, j), Tol(e))
CutOff(e, j) == FEq(e.grad[j], FZero) /\ Changes(At(e, j), e.h, Noise(e, j))
Jac(e) ==
    LET n == Len(e.samples[4]) IN
    Then(Cl("shape", Len(e.grad) = n),
         IF ~AllFin(e.samples[4]) THEN {"value_not_finite"}
         ELSE IF \E q \in 1..7 : ~AllFin(e.samples[q]) THEN Cl("finite", AllFin(e.grad))
         ELSE Cl("finite", AllFin(e.grad))
              \cup Cl("not_cut_off", \A j \in 1..n : ~CutOff(e, j))
              \cup Cl("slope", \A j \in 1..n : FFin(e.grad[j]) => Ok(e, j)))
\* forward and reverse mode, one galaxy and a population: the same derivative
Agree(e) ==
    LET lose == IF IsX64(e) THEN R("1e-11") ELSE R("1e-4") 
        big == FMaxRange(LAMBDA i : FAbs(e.b[i]), 1, Len(e.b))
    IN
    Cl("finite", AllFin(e.a) /\ AllFin(e.b))
    \cup Cl("modes_agree", Len(e.a) = Len(e.b) /\ Len(e.a) = Len(e.value)
           /\ \A j \in 1..Len(e.b) : Close(e.a[j], e.b[j], e.rtol, ((lose (.) FAbs(e.value[j])) (+) ((e.rtol (.) R("1e-3")) (.) big)) (+) R("1e-30")))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op \in {"gal", "galpop", "bounds", "popbounds", "mcparams", "mcsfh", "fracq"} -> Jac(e)
           [] e.op = "agree" -> Agree(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
