------------------------------- MODULE MC_C33 -------------------------------
(* Sums and numbers of galaxies are accumulated part by part and divided at  *)
(* the end.  Kinds: a, b fitted in bin 1, 2; n not fitted in bin 1; o fitted *)
(* outside the bins.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NP, MaxN, Design
VARIABLES parts, p, sum, num, means, phase
vars == <<parts, p, sum, num, means, phase>>
Kinds == {"a", "b", "n", "o"}
Bins == {1, 2}
In(k, b) == k = (IF b = 1 THEN "a" ELSE "b")
\* the value of galaxy i of part q: all different
Val(q, i) == 10 * q + i
RECURSIVE Flat(_, _)
Flat(ps, q) == IF q > Len(ps) THEN <<>> ELSE ps[q] \o <<"|">> \o Flat(ps, q + 1)
Init == /\ parts \in [1..NP -> UNION {[1..n -> Kinds] : n \in 1..MaxN}]
        /\ p = 0 /\ sum = [b \in Bins |-> 0] /\ num = [b \in Bins |-> 0] /\ means = [b \in Bins |-> <<>>] /\ phase = "add"
        /\ PrintT(<<"SCEN">> \o Flat(parts, 1))
RECURSIVE Total(_, _, _, _)
\* with one galaxy's value taken from its place among the fitted if mispaired
Total(q, b, i, k) ==
    IF i > Len(parts[q]) THEN <<0, 0>>
    ELSE LET fitted == parts[q][i] # "n"
             rest == Total(q, b, i + 1, IF fitted THEN k + 1 ELSE k)
             v == IF Design = "mispaired" THEN Val(q, k) ELSE Val(q, i)
         IN IF In(parts[q][i], b) THEN <<rest[1] + v, rest[2] + 1>> ELSE rest
Add == /\ phase = "add" /\ p < NP /\ p' = p + 1
       /\ sum' = [b \in Bins |-> sum[b] + Total(p', b, 1, 1)[1]]
       /\ num' = [b \in Bins |-> num[b] + Total(p', b, 1, 1)[2]]
       /\ means' = [b \in Bins |-> IF Total(p', b, 1, 1)[2] > 0 THEN Append(means[b], Total(p', b, 1, 1)) ELSE means[b]]
       /\ UNCHANGED <<parts, phase>>
Finish == phase = "add" /\ p = NP /\ phase' = "done" /\ UNCHANGED <<parts, p, sum, num, means>>
Spec == Init /\ [][Add \/ Finish]_vars /\ WF_vars(Add \/ Finish)
All(b) == {<<q, i>> \in (1..NP) \X (1..MaxN) : i <= Len(parts[q]) /\ In(parts[q][i], b)}
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Val(x[1], x[2]) + SumOf(S \ {x})
\* the mean as a fraction <<numerator, denominator>>
Mean(b) == IF Design # "mean_of_means" \/ Len(means[b]) < 2 THEN <<sum[b], num[b]>>
           ELSE LET m == means[b] IN <<m[1][1] * m[2][2] + m[2][1] * m[1][2], 2 * m[1][2] * m[2][2]>>
Pooled == phase = "done" => \A b \in Bins : All(b) # {} =>
    Mean(b)[1] * Cardinality(All(b)) = SumOf(All(b)) * Mean(b)[2] /\ num[b] = Cardinality(All(b))
Terminates == <>(phase = "done")
=============================================================================
