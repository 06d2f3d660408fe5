------------------------------- MODULE MC_C10 -------------------------------
(* Histories built snapshot by snapshot on a lattice of log mass, log rate *)
(* and time (dyadic, so that thresholds are met exactly), all options.     *)
EXTENDS FitTargets, TLC
CONSTANTS Depth
VARIABLES ts, lm, lf, o
vars == <<ts, lm, lf, o>>
Dm == <<R("0.0"), R("0.0625"), R("0.5"), R("2.0")>>
Dt == <<R("0.5"), R("1.0")>>
Lf == <<R("0.0"), R("0.0625"), R("1.0")>>
Opts == <<DefaultOpt,
          [DefaultOpt EXCEPT !.dlogm = R("0.5"), !.mmin = R("0.0"), !.delay = R("0.25")],
          [DefaultOpt EXCEPT !.dlogm = R("20.0"), !.mmin = R("9.5"), !.tmin = R("1.5")],
          [DefaultOpt EXCEPT !.mmin = R("30.0"), !.tmin = R("0.0"), !.delay = R("2.0")],
          [DefaultOpt EXCEPT !.tmin = R("40.0")]>>
Init == ts = <<R("0.5")>> /\ lm = <<R("7.0")>> /\ (\E k \in 1..3 : lf = <<Lf[k]>>) /\ o \in 1..5
Next == /\ Len(ts) < Depth
        /\ \E a \in 1..2, b \in 1..4, c \in 1..3 :
              /\ ts' = Append(ts, ts[Len(ts)] (+) Dt[a]) /\ lm' = Append(lm, lm[Len(lm)] (+) Dm[b])
              /\ lf' = Append(lf, Lf[c])
        /\ (Len(ts') = Depth => PrintT(<<"SCEN", o>> \o [i \in 1..(3 * Depth) |->
                FStr(IF i <= Depth THEN ts'[i] ELSE IF i <= 2 * Depth THEN lm'[i - Depth] ELSE lf'[i - 2 * Depth])]))
        /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
N == Len(ts)
W(opt) == WeightMass(ts, lm, opt)
WF(opt) == WeightRate(ts, lm, lf, opt)
O == Opts[o]
Values == \A i \in 1..N : W(O)[i] \in {IGNORED, KEPT, FAVOURED} /\ WF(O)[i] \in {IGNORED, KEPT, FAVOURED}
\* the final snapshot always counts, whatever the cuts
FinalCounts == W(O)[N] = FAVOURED
\* a peak of the averaged rate late enough always counts
PeakCounts == \E i \in 1..N : ~(ts[i] \prec (O.delay (+) R("0.01"))) =>
                 \A j \in 1..N : (FEq(lf[j], FSeqMax(lf)) /\ ~(ts[j] \prec (O.delay (+) R("0.01")))) => WF(O)[j] = FAVOURED
EarlyIgnored == \A i \in 1..N : ts[i] \prec (O.delay (+) R("0.01")) => WF(O)[i] = IGNORED
\* loosening a cut never drops a snapshot
Looser(x) == {[x EXCEPT !.dlogm = @ (+) FOne], [x EXCEPT !.mmin = @ (-) FOne], [x EXCEPT !.tmin = @ (-) FOne]}
Monotone == \A p \in Looser(O) : \A i \in 1..N : W(O)[i] # IGNORED => W(p)[i] # IGNORED
MinMassNeverStricter == \A i \in 1..N : ((lm[N] (-) FHalf) \prec lm[i] /\ O.tmin \preceq ts[i] /\ (lm[N] (-) O.dlogm) \prec lm[i]) => W(O)[i] # IGNORED
=============================================================================
