------------------------------ MODULE Trace_C31 ------------------------------
(* Tables and samples which the measuring scripts left, and what the ranks  *)
(* did to the files of the parts.                                           *)
EXTENDS TraceBase, Measure, Causal
Eps(e) == IF IsX64(e) THEN R("1e-8") ELSE R("2e-4")
NZ(e) == Len(e.zs)
NM(e) == Len(e.medges) - 1
NS(e) == Len(e.sedges) - 1
NR(e) == Len(e.redges) - 1
In(e, z, m) == Counted(e.gals, e.medges, z, m)
All(e, ok(_, _)) == \A z \in 1..NZ(e) : \A m \in 1..NM(e) : ok(z, m)
Ages(e, a) == IsVec(a, NZ(e)) /\ \A z \in 1..NZ(e) : Close(a[z], e.ages[z], R("1e-6"), FZero)
Whole(x, n) == FEq(x, FInt(n))
Targets(e) ==
    LET count(z, m) == Whole(e.counts[z][m], Cardinality(In(e, z, m)))
        cens(z, m) == Whole(e.cencounts[z][m], Cardinality(Centrals(e.gals, In(e, z, m))))
        sats(z, m) == Whole(e.satcounts[z][m], Cardinality(In(e, z, m) \ Centrals(e.gals, In(e, z, m))))
        mass(z, m) == LET f(g) == e.gals[g].sm[z] IN SumOver(e.gals, In(e, z, m), f)
        hists(z, m) == Close(e.hist[z][m], mass(z, m), Eps(e), Eps(e))
        mean(z, m) == In(e, z, m) # {} => Close(e.smhm[z][m], mass(z, m) (/) FInt(Cardinality(In(e, z, m))), Eps(e), Eps(e))
        softc(z, m) == Close(e.soft[z][m], SoftCount(e.gals, e.medges, z, m), Eps(e), Eps(e))
        softs(z, m) == Close(e.softsum[z][m], SoftSum(e.gals, e.medges, z, m), Eps(e), Eps(e) (.) R("10.0"))
        softm(z, m) == LET c == SoftCount(e.gals, e.medges, z, m) IN
                       R("1e-2") \prec c => Close(e.softmean[z][m], SoftSum(e.gals, e.medges, z, m) (/) c, Eps(e) (/) c, Eps(e))
    IN Then(Cl("shape", IsVec(e.counts[1], NM(e)) /\ Len(e.counts) = NZ(e)),
            Cl("axes", e.axes) \cup Cl("age", Ages(e, e.age_a) /\ Ages(e, e.age_c))
            \cup Cl("counts", All(e, count)) \cup Cl("centrals", All(e, cens)) \cup Cl("satellites", All(e, sats))
            \cup Cl("stellar_mass_sum", All(e, hists)) \cup Cl("mean", All(e, mean))
            \cup Cl("soft_counts", All(e, softc)) \cup Cl("soft_sum", All(e, softs)) \cup Cl("soft_mean", All(e, softm)))
Distributions(e) ==
    LET hard(z, m) == \A k \in 1..NS(e) : Whole(e.hard[z][m][k], Cardinality({g \in In(e, z, m) : InBin(e.gals[g].sm[z], e.sedges, k)}))
        soft(z, m) == \A k \in 1..NS(e) : Close(e.soft[z][m][k], SoftMass(e.gals, In(e, z, m), e.sedges, z, k), Eps(e), Eps(e))
        rate(t, s, z, m) == \A k \in 1..NS(e) : \A r \in 1..NR(e) : Close(t[z][m][k][r], SoftRate(e.gals, s, e.sedges, e.redges, z, k, r), Eps(e), Eps(e))
        cens(z, m) == rate(e.cendist, Centrals(e.gals, In(e, z, m)), z, m)
        sats(z, m) == rate(e.satdist, In(e, z, m) \ Centrals(e.gals, In(e, z, m)), z, m)
    IN Cl("mass_counts", All(e, hard)) \cup Cl("mass_soft", All(e, soft)) \cup Cl("central_rates", All(e, cens)) \cup Cl("satellite_rates", All(e, sats))
SameVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], R("1e-6"), R("1e-6"))
Samples(e) ==
    LET n == Len(e.ids)
        z(i) == e.z[i] + 1
        m(i) == e.m[i] + 1
        cell(zz, mm) == {i \in 1..n : z(i) = zz /\ m(i) = mm}
        parts == {e.gals[g].part : g \in 1..Len(e.gals)}
        quota(zz, mm) == \A p \in parts :
            Cardinality({i \in cell(zz, mm) : e.gals[e.ids[i]].part = p}) = SampleSize(Cardinality(CountedIn(e.gals, e.medges, zz, mm, p)), e.quota)
    IN Then(Cl("sample_shape", e.shape /\ Len(e.m) = n /\ Len(e.z) = n /\ Len(e.host) = n),
            Cl("own_cell", \A i \in 1..n : e.ids[i] \in In(e, z(i), m(i)))
            \cup Cl("distinct", \A i, j \in 1..n : i # j /\ z(i) = z(j) /\ m(i) = m(j) => e.ids[i] # e.ids[j])
            \cup Cl("quota", All(e, quota))
            \cup Cl("own_parameters", \A i \in 1..n : LET g == e.gals[e.ids[i]] IN SameVec(e.mahs[i], g.mah) /\ SameVec(e.mss[i], g.ms) /\ SameVec(e.qs[i], g.q))
            \cup Cl("own_host", \A i \in 1..n : e.host[i] = e.gals[e.ids[i]].host)
            \cup Cl("own_time", \A i \in 1..n : Close(e.tobs[i], e.ages[z(i)], R("1e-6"), FZero) /\ Close(e.zval[i], e.zs[z(i)], R("1e-9"), R("1e-9")))
            \cup Cl("bin_middle", \A i \in 1..n : Close(e.mid[i], (e.medges[m(i)] (+) e.medges[m(i) + 1]) (/) R("2.0"), R("1e-9"), FZero)))
\* what the ranks did: parts are read after they are written, removed after the outputs are
IsTmp(e, f) == f \notin {e.outs[i] : i \in 1..Len(e.outs)}
ClosedBefore(e, n, f) == \E k \in 1..(n - 1) : e.log[k].k = "close" /\ e.log[k].write /\ e.log[k].fn = f
                                              /\ \A j \in (k + 1)..(n - 1) : ~(e.log[j].k = "open" /\ e.log[j].write /\ e.log[j].fn = f)
Step(e, n) ==
    LET x == e.log[n] IN
    CASE x.k = "open" /\ ~x.write -> Cl("read_before_written", ClosedBefore(e, n, x.fn))
      [] x.k = "open" /\ x.write /\ IsTmp(e, x.fn) -> Cl("written_twice", ~ClosedBefore(e, n, x.fn))
      [] x.k = "rm" -> Cl("removed_too_early", \A i \in 1..Len(e.outs) : ClosedBefore(e, n, e.outs[i]))
      [] OTHER -> {}
Schedule(e) ==
    LET n == Len(e.log) IN
    UNION {Step(e, k) : k \in 1..n}
    \cup Cl("every_part_collected_once", \A k \in 1..n : e.log[k].k = "close" /\ e.log[k].write /\ IsTmp(e, e.log[k].fn)
              => Cardinality({j \in 1..n : e.log[j].k = "close" /\ ~e.log[j].write /\ e.log[j].fn = e.log[k].fn}) = 1)
    \cup Cl("race", RaceFree(e.log, 0..(e.nranks - 1)))
       \cup Cl("every_rank_ends", \A q \in 0..(e.nranks - 1) : \E m \in 1..n : e.log[m].k = "end" /\ e.log[m].r = q)
    \cup Cl("nothing_left", e.left = <<>>)
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "targets" -> Targets(e)
           [] e.op = "distributions" -> Distributions(e)
           [] e.op = "samples" -> Samples(e)
           [] e.op = "schedule" -> Schedule(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
