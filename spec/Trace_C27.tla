------------------------------ MODULE Trace_C27 ------------------------------
(* A recorded run of a fitting script: what its ranks did, in order, and    *)
(* the collated files it left.                                              *)
EXTENDS TraceBase, Catalog, Pipeline, Causal
Near(a, b) == Close(a, b, R("1e-6"), R("1e-12"))
NearVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i])
\* the galaxy whose history was handed to the fitter: <<volume, row>>
Owner(e, x) ==
    LET all == {<<v, i>> \in (1..Len(e.vols)) \X (1..FoldSet(LAMBDA v, m : IF Len(e.vols[v].ids) > m THEN Len(e.vols[v].ids) ELSE m, 1, 1..Len(e.vols))) :
                    i <= Len(e.vols[v].ids) /\ NearVec(x.sfh, e.vols[v].sfh[i])}
    IN IF Cardinality(all) = 1 THEN CHOOSE g \in all : TRUE ELSE <<0, 0>>
IsEligible(e, v, i) == e.vols[v].eligible[i] /\ (e.vols[v].needs_mass => e.lgm_min \prec e.vols[v].logm[i])
Ids(e, v) == {e.vols[v].ids[i] : i \in 1..Len(e.vols[v].ids)}
AllIds(e) == UNION {Ids(e, v) : v \in 1..Len(e.vols)}
SetOf(q) == {q[i] : i \in 1..Len(q)}

\* one recorded event, given what was fitted before
Event(e, n, own) ==
    LET x == e.log[n] IN
    CASE x.k = "fit" ->
            IF own[n] = <<0, 0>> THEN {"history_of_no_galaxy"} ELSE
            LET v == own[n][1]  i == own[n][2] IN
            Cl("fitted_not_eligible", IsEligible(e, v, i))
            \cup Cl("halo_of_another_galaxy", NearVec(x.mah, e.vols[v].mah[i]))
            \cup Cl("times", NearVec(x.t, e.vols[v].t))
            \cup Cl("fitted_twice", \A m \in 1..(n - 1) : e.log[m].k = "fit" => own[m] # own[n])
      [] x.k = "read" ->
            \* collation of the next subvolume: all of its rows are on disk
            LET v == x.outs + 1 IN
            Cl("collated_before_written", v <= Len(e.vols) => Ids(e, v) \subseteq SetOf(x.disk))
      [] x.k = "rm" -> Cl("removed_before_collated", (SetOf(x.gone) \cap AllIds(e)) \subseteq SetOf(x.have))
      [] x.k = "pass" ->
            Cl("barrier", x.what # "bar" \/ \A q \in 0..(e.nranks - 1) : \E m \in 1..(n - 1) : e.log[m].k = "arrive" /\ e.log[m].r = q /\ e.log[m].c = x.c)
      [] x.k = "end" -> Cl("ended_twice", \A m \in 1..(n - 1) : ~(e.log[m].k = "end" /\ e.log[m].r = x.r))
      [] OTHER -> {}

\* the row of galaxy i in a collated file
RowOf(e, v, i, fits) ==
    LET o == e.outs[v]  f == {m \in fits : m[2] = <<v, i>>} IN
    IF IsEligible(e, v, i)
    THEN IF Cardinality(f) # 1 THEN {"not_fitted"} ELSE
         LET x == e.log[(CHOOSE m \in f : TRUE)[1]] IN
         Cl("row_parameters", \A k \in 1..8 : SixDigits(o.p[i][k], F32(x.p[k])))
         \cup Cl("row_loss", SixDigits(o.loss[i], x.loss)) \cup Cl("row_success", o.success[i] = x.flag)
    ELSE Cl("row_not_marked_unfit", (\A k \in 1..8 : Near(o.p[i][k], NOFIT)) /\ Near(o.loss[i], NOFIT_LOSS) /\ o.success[i] = -1)
Volume(e, v, fits) ==
    LET n == Len(e.vols[v].ids)  o == e.outs[v] IN
    Then(Cl("rows", Len(o.ids) = n),
         Cl("catalogue_order", \A i \in 1..n : o.ids[i] = e.vols[v].ids[i]) \cup UNION {RowOf(e, v, i, fits) : i \in 1..n})
Run(e) ==
    LET n == Len(e.log)
        own == [m \in 1..n |-> IF e.log[m].k = "fit" THEN Owner(e, e.log[m]) ELSE <<0, 0>>]
        fits == {<<m, own[m]>> : m \in {m \in 1..n : e.log[m].k = "fit"}}
    IN UNION {Event(e, m, own) : m \in 1..n}
       \cup Cl("race", RaceFree(e.log, 0..(e.nranks - 1)))
       \cup Cl("every_rank_ends", \A q \in 0..(e.nranks - 1) : \E m \in 1..n : e.log[m].k = "end" /\ e.log[m].r = q)
       \cup Then(Cl("outputs", Len(e.outs) = Len(e.vols)), UNION {Volume(e, v, fits) : v \in 1..Len(e.vols)})
Check(e) == IF Has(e, "exc") THEN Raised(e) ELSE CASE e.op = "run" -> Run(e) [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
