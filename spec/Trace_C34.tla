------------------------------ MODULE Trace_C34 ------------------------------
(* Recorded runs of the halo fitting script.                                *)
EXTENDS TraceBase, Catalog, Pipeline, Causal
Near(a, b) == Close(a, b, R("1e-6"), R("1e-12"))
NearVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i])
End(h) == h.t[Len(h.t)]
LastTime(e) == LET f(i) == End(e.halos[i]) IN FMaxRange(f, 1, Len(e.halos))
Peaks(m) == LET step(a, i) == Append(a, IF i = 1 THEN m[1] ELSE FMax(a[i - 1], m[i])) IN FoldRange(step, <<>>, 1, Len(m))
\* what the fitter gets for a halo
Times(e, h) == IF End(h) \prec LastTime(e) THEN Append(h.t, LastTime(e)) ELSE h.t
Masses(e, h) == LET p == Peaks(h.m) IN IF End(h) \prec LastTime(e) THEN Append(p, p[Len(p)]) ELSE p
TooShort(e, h) == (End(h) (-) h.t[1]) \prec e.dtmin
\* the halo of a fit: by its greatest mass
Owner(e, x) == LET all == {i \in 1..Len(e.halos) : Near(FSeqMax(x.m), FSeqMax(e.halos[i].m))} IN IF Cardinality(all) = 1 THEN CHOOSE i \in all : TRUE ELSE 0
SetOf(q) == {q[i] : i \in 1..Len(q)}
Fitted(e) == {e.halos[i].id : i \in {i \in 1..Len(e.halos) : ~TooShort(e, e.halos[i])}}
Event(e, n, own) ==
    LET x == e.log[n] IN
    CASE x.k = "fit" ->
            IF own[n] = 0 THEN {"history_of_no_halo"} ELSE
            LET h == e.halos[own[n]] IN
            Cl("fitted_though_too_short", x.skip \/ ~TooShort(e, h)) \cup Cl("skipped", ~x.skip \/ TooShort(e, h))
            \cup Cl("times", x.skip \/ NearVec(x.t, Times(e, h))) \cup Cl("masses", x.skip \/ NearVec(x.m, Masses(e, h)))
            \cup Cl("fitted_twice", \A m \in 1..(n - 1) : e.log[m].k = "fit" => own[m] # own[n])
      [] x.k = "read" -> Cl("collated_before_written", Fitted(e) \subseteq SetOf(x.disk))
      [] x.k = "rm" -> Cl("removed_before_collated", (SetOf(x.gone) \cap Fitted(e)) \subseteq SetOf(x.have))
      [] x.k = "end" -> Cl("ended_twice", \A m \in 1..(n - 1) : ~(e.log[m].k = "end" /\ e.log[m].r = x.r))
      [] OTHER -> {}
HaloRow(e, i, own) ==
    LET f == {n \in 1..Len(e.log) : e.log[n].k = "fit" /\ own[n] = i} IN
    IF TooShort(e, e.halos[i])
    THEN Cl("row_not_marked_unfit", (\A k \in 1..5 : Near(e.p[i][k], R("-99.0"))) /\ Near(e.loss[i], R("-99.0")) /\ e.algo[i] = -1)
    ELSE IF Cardinality(f) # 1 THEN {"not_fitted"} ELSE
         LET x == e.log[CHOOSE n \in f : TRUE] IN
         Cl("row_parameters", \A k \in 1..5 : SixDigits(e.p[i][k], x.p[k])) \cup Cl("row_loss", SixDigits(e.loss[i], x.loss))
         \cup Cl("row_points", e.npts[i] = x.npts) \cup Cl("row_algorithm", e.algo[i] = x.algo)
Run(e) ==
    LET n == Len(e.log)
        own == [m \in 1..n |-> IF e.log[m].k = "fit" THEN Owner(e, e.log[m]) ELSE 0]
    IN UNION {Event(e, m, own) : m \in 1..n}
       \cup Cl("race", RaceFree(e.log, 0..(e.nranks - 1)))
       \cup Cl("every_rank_ends", \A q \in 0..(e.nranks - 1) : \E m \in 1..n : e.log[m].k = "end" /\ e.log[m].r = q)
       \cup Cl("nothing_left", e.left = <<>>)
       \cup Then(Cl("rows", Len(e.p) = Len(e.halos) /\ Len(e.loss) = Len(e.halos)), UNION {HaloRow(e, i, own) : i \in 1..Len(e.halos)})
Check(e) == IF Has(e, "exc") THEN Raised(e) ELSE CASE e.op = "run" -> Run(e) [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
