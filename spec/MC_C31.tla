------------------------------- MODULE MC_C31 -------------------------------
(* Ranks measure the galaxies of their own parts, meet, and rank 1 adds up  *)
(* what they wrote and then removes it, for every small catalogue, rank     *)
(* count and order in which the ranks move.                                 *)
EXTENDS Measure, TLC
CONSTANTS MaxR, N, Quota, Meets, Overlap
VARIABLES pop, nr, pc, file, at, sum, samp, bad
vars == <<pop, nr, pc, file, at, sum, samp, bad>>
\* a, b: centrals of the first and second mass bin; s, t: satellites; o: of no bin;
\* h, q, n: no halo fit, no history fit, fit which failed
Kinds == {"a", "b", "s", "t", "o", "h", "q", "n"}
Edges == <<R("11.0"), R("12.0"), R("13.0")>>
Mass == [a |-> R("11.5"), b |-> R("12.0"), s |-> R("11.5"), t |-> R("12.5"), o |-> R("10.0"), h |-> R("11.5"), q |-> R("12.5"), n |-> R("11.5")]
Start(r) == (r - 1) * (N \div nr) + (IF r - 1 <= N % nr THEN r - 1 ELSE N % nr)
PartOf(g) == CHOOSE r \in 1..nr : Start(r) < g /\ g <= (IF r = nr THEN N ELSE Start(r + 1))
Gal(g) == [fit |-> pop[g] \notin {"h", "q", "n"}, part |-> PartOf(g), cen |-> pop[g] \in {"a", "b", "o"},
           mh |-> <<Mass[pop[g]]>>, sm |-> <<FInt(g)>>, rate |-> <<FZero>>]
Gals == [g \in 1..N |-> Gal(g)]
\* the defective design: parts overlap by one galaxy
Block(r) == {g \in 1..N : Gals[g].part = r \/ (Overlap /\ r > 1 /\ g = Start(r))}
Seen(r, m) == {g \in Block(r) : Gals[g].fit /\ InBin(Gals[g].mh[1], Edges, m)}
Mine(r) == [m \in 1..2 |-> Cardinality(Seen(r, m))]
\* any choice of a sample is allowed; the first members stand for it
First(s, n) == {g \in s : Cardinality({h \in s : h < g}) < n}
Sample(r) == [m \in 1..2 |-> First(Seen(r, m), Quota)]
Empty == [m \in 1..2 |-> 0]
NoneSampled == [m \in 1..2 |-> {}]
Init == /\ nr \in 1..MaxR /\ pop \in [1..N -> Kinds]
        /\ pc = [r \in 1..nr |-> "measure"] /\ file = [r \in 1..nr |-> "none"] /\ at = 1 /\ sum = Empty /\ samp = NoneSampled /\ bad = FALSE
        /\ PrintT(<<"SCEN", nr>> \o pop)
Measured(r) == /\ pc[r] = "measure" /\ pc' = [pc EXCEPT ![r] = "meet"] /\ file' = [file EXCEPT ![r] = "written"]
               /\ UNCHANGED <<pop, nr, at, sum, samp, bad>>
Meet(r) == /\ pc[r] = "meet" /\ (Meets => \A q \in 1..nr : pc[q] # "measure")
           /\ pc' = [pc EXCEPT ![r] = IF r = 1 THEN "collect" ELSE "done"] /\ UNCHANGED <<pop, nr, file, at, sum, samp, bad>>
Collect == /\ pc[1] = "collect"
           /\ IF at > nr THEN /\ pc' = [pc EXCEPT ![1] = "remove"] /\ UNCHANGED <<at, sum, samp, bad>>
              ELSE /\ at' = at + 1 /\ bad' = (bad \/ file[at] # "written") /\ UNCHANGED pc
                   /\ sum' = [m \in 1..2 |-> sum[m] + Mine(at)[m]]
                   /\ samp' = [m \in 1..2 |-> samp[m] \cup Sample(at)[m]]
           /\ UNCHANGED <<pop, nr, file>>
Remove == /\ pc[1] = "remove" /\ pc' = [pc EXCEPT ![1] = "done"] /\ file' = [r \in 1..nr |-> "none"] /\ UNCHANGED <<pop, nr, at, sum, samp, bad>>
Next == Collect \/ Remove \/ \E r \in 1..nr : Measured(r) \/ Meet(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == \A r \in 1..nr : pc[r] = "done"
Collected == pc[1] \in {"remove", "done"}
\* every fitted galaxy once in its own cell, however the catalogue is split
EachOnce == Collected => \A m \in 1..2 : sum[m] = Cardinality(Counted(Gals, Edges, 1, m))
\* samples: members of the cell, each part's quota of them
Samples == Collected => \A m \in 1..2 :
              /\ samp[m] \subseteq Counted(Gals, Edges, 1, m)
              /\ \A r \in 1..nr : Cardinality({g \in samp[m] : Gals[g].part = r}) = SampleSize(Cardinality(CountedIn(Gals, Edges, 1, m, r)), Quota)
\* bins tile: no galaxy is counted twice, none without a fit
Disjoint == Counted(Gals, Edges, 1, 1) \cap Counted(Gals, Edges, 1, 2) = {}
NeverUnwritten == ~bad
Terminates == <>Finished
=============================================================================
