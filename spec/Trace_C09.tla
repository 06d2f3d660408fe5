----------------------------- MODULE Trace_C09 -----------------------------
(* Recorded runs of Adam and of the combined minimizer.                    *)
EXTENDS TraceBase, AdamFit
\* loss of a rung in the replay: codes apart, first of equal codes smallest;
\* on any scale, also negative
RungLoss(e, r) == e.off (+) (e.mult (.) ((FInt(e.table[r + 1]) (.) R("1.5")) (+) (R("0.001") (.) FInt(r))))
LossIs(e, x, y) == Close(x, y, R("1e-6"), R("1e-6") (.) e.mult)
F(e) == AdamLadder(e.table, 0, e.nwarm, e.wstride, e.wn, e.n)
Ladder(e) ==
    LET f == F(e)  m == Len(f.seen) IN
    Cl("visited", e.seen = f.seen)
    \cup Cl("record", Len(e.loss_arr) = m /\ \A i \in 1..m : LossIs(e, e.loss_arr[i], RungLoss(e, f.seen[i])))
    \cup Cl("terminated", (e.flag = 1) = f.completed /\ e.flag \in {0, 1})
    \cup Cl("best", e.best = f.best)
    \cup Cl("loss", IF m = 0 THEN FEq(e.loss, ADAM_FALLBACK) ELSE LossIs(e, e.loss, RungLoss(e, f.best)))
    \cup Cl("other_parameters", e.others)
Combined(e) ==
    IF e.qn_success THEN
        Cl("success", e.flag = 1) \cup Cl("quasi_newton", VecSame(e.p, e.qn_x) /\ FEq(e.loss, e.qn_fun))
    ELSE LET f == F(e)  m == Len(f.seen) IN
        Cl("success", e.flag = (IF f.completed THEN 0 ELSE -1))
        \cup Cl("best", e.best = f.best)
        \cup Cl("loss", IF m = 0 THEN FEq(e.loss, ADAM_FALLBACK) ELSE LossIs(e, e.loss, RungLoss(e, f.best)))
        \cup Cl("other_parameters", e.others)
Bowl(e) ==
    LET r == BowlRun(e, e.x0, e.h, e.n)
        m == Len(r.seen)
        \* a start this close to the wall may go either way
        near == \E i \in 1..m : Close(r.seen[i][1], e.wall, FZero, R("1e-3") (.) e.h)
        tol == R("2e-3") (.) e.h
        bl == LET f(i) == e.loss_arr[i] IN FMinRange(f, 1, Len(e.loss_arr))
    IN IF near THEN {} ELSE
       Then(Cl("length", Len(e.loss_arr) = m /\ Len(e.params_arr) = m),
       Cl("terminated", e.flag = (IF r.bad THEN 0 ELSE 1))
       \cup (IF m = 0 THEN Cl("fallback", FEq(e.loss, ADAM_FALLBACK)) ELSE
       Cl("start", VecClose(e.params_arr[1], e.x0, R("1e-7"), R("1e-7")))
       \cup Cl("adam", \A i \in 1..m : VecClose(e.params_arr[i], r.seen[i], R("1e-5"), tol))
       \cup Cl("record", \A i \in 1..m : Close(e.loss_arr[i], BowlLoss(e, e.params_arr[i]), R("1e-4"), R("1e-5")))
       \cup Cl("best", FEq(e.loss, bl) /\ \E i \in 1..m : FEq(e.loss_arr[i], bl) /\ VecSame(e.p, e.params_arr[i]))))
\* from any start: warm-ups leave the result no worse than the start
Warm(e) ==
    Cl("no_worse", e.loss \preceq (e.loss0 (.) R("1.00001")))
    \cup Cl("loss_of_point", Close(e.loss, BowlLoss(e, e.p), R("1e-4"), R("1e-5")))
    \cup Cl("terminated", e.flag = 1) \cup Cl("length", e.nrec = e.n)
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "ladder" -> Ladder(e)
           [] e.op = "combined" -> Combined(e)
           [] e.op = "bowl" -> Bowl(e)
           [] e.op = "warm" -> Warm(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
