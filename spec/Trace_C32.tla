----------------------------- MODULE Trace_C32 ------------------------------
(* Runs of the fitting script: every point at which the loss was evaluated,  *)
(* in the order of first visits, and the saved result.                       *)
EXTENDS TraceBase, PopFit, Population
Step0 == R("0.01")
\* ranks of the finite losses stand for the losses
Codes(e) == [p \in 1..Len(e.pts) |->
    IF ~FFin(e.loss[p]) THEN BADLOSS
    ELSE IF ~AllFin(e.grads[p]) THEN BADGRAD
    ELSE 1 + Cardinality({q \in 1..Len(e.pts) : FFin(e.loss[q]) /\ e.loss[q] \prec e.loss[p]})]
TolX(e) == IF IsX64(e) THEN R("1e-9") ELSE R("4e-7")
Near(e, x, y) == VecClose(x, y, TolX(e), IF IsX64(e) THEN R("1e-9") ELSE R("2e-6"))
\* every move is a step of Adam from its base
Moves(e, f) ==
    LET d == Len(e.start)
        zero(j) == FZero
        go(a, k) ==
            LET t == f.acts[k] IN
            IF ~a.ok \/ t.pt > Len(e.pts) THEN a
            ELSE LET s == Moments(a.s, e.grads[t.g])
                     good == Near(e, e.pts[t.pt], StepTo(e.pts[t.base], s, t.i, Step0))
                 IN [s |-> IF t.kept THEN s ELSE a.s, ok |-> good]
    IN FoldRange(go, [s |-> [m |-> Vec(d, zero), v |-> Vec(d, zero)], ok |-> TRUE], 1, Len(f.acts)).ok
Fit(e) ==
    LET codes == Codes(e)
        f == Flow(codes, e.n)
        least == LET g(k) == e.loss[f.rec[k]] IN FMinRange(g, 1, Len(f.rec))
        SavedAs(p) == \A j \in 1..Len(e.u) : FEq(F32(e.pts[p][j]), e.u[j])
        m == Len(e.idx)
    IN Then(Cl("evaluated", e.pts # <<>> /\ \A p \in 1..Len(e.pts) : Len(e.pts[p]) = Len(e.start)),
       Cl("start", Near(e, e.pts[1], e.start))
       \cup Cl("data", e.data_ok /\ e.kernels = <<e.loss_type>>)
       \cup Cl("files", e.files = <<e.outname \o ".npz">>)
       \cup Then(Cl("points", ~f.short /\ Asked(f) = Len(e.pts)),
            Cl("moves", Moves(e, f))
            \cup Cl("best", \E k \in 1..Len(f.rec) : SavedAs(f.rec[k]) /\ Close(e.loss[f.rec[k]], least, R("1e-6"), FZero))
            \cup Cl("bounded", Len(e.p) = m /\ \A j \in 1..m :
                     Close(e.p[j], PopBound(e.idx[j], e.u[j]), R("4e-6"), R("4e-6") (.) (PopHi[e.idx[j]] (-) PopLo[e.idx[j]])))))
Check(e) == IF Has(e, "exc") THEN Raised(e)
            ELSE CASE e.op = "fit" -> Fit(e) [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
