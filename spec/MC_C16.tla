------------------------------- MODULE MC_C16 -------------------------------
(* Random keys of a Monte Carlo population.  A key is its path of splits.   *)
(* The draws of all galaxies run in any order; the outcome of a galaxy is   *)
(* the deviates it drew together with its own inputs and the model.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxGal
VARIABLES n, model, input, consumed, drawn
vars == <<n, model, input, consumed, drawn>>
Blocks == {"main_sequence", "quenched_ms", "quenched_q", "coin"}
KeyNo == [b \in Blocks |-> CASE b = "main_sequence" -> 1 [] b = "quenched_ms" -> 2 [] b = "quenched_q" -> 3 [] b = "coin" -> 4]
SplitKey(key, i) == Append(key, i)
Root == <<>>
GalKey(i) == SplitKey(Root, i)
DrawKey(i, b) == SplitKey(GalKey(i), KeyNo[b])
Deviate(key) == key          \* deviates are a function of the key alone, injective
Fields == {"none", "logmp0", "tpeak", "upid", "lgmu", "lgmhost", "gyr"}
Init == /\ n \in 1..MaxGal /\ model \in {"default", "varied"}
        /\ \E who \in 1..n, f \in Fields : input = [i \in 1..n |-> IF i = who THEN f ELSE "none"]
        /\ consumed = {} /\ drawn = [i \in 1..n |-> [b \in {} |-> <<>>]]
        /\ PrintT(<<"SCEN", n, model>> \o [i \in 1..n |-> input[i]])
Draw(i, b) == /\ b \notin DOMAIN drawn[i]
              /\ DrawKey(i, b) \notin consumed        \* a key is used once
              /\ consumed' = consumed \cup {DrawKey(i, b)}
              /\ drawn' = [drawn EXCEPT ![i] = [c \in DOMAIN drawn[i] \cup {b} |-> IF c = b THEN Deviate(DrawKey(i, b)) ELSE drawn[i][c]]]
              /\ UNCHANGED <<n, model, input>>
Next == \E i \in 1..n, b \in Blocks : Draw(i, b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == \A i \in 1..n : DOMAIN drawn[i] = Blocks
Outcome(i) == <<drawn[i], input[i], model>>
Single(key, inp) == <<[b \in Blocks |-> Deviate(SplitKey(key, KeyNo[b]))], inp, model>>
\* nothing blocks: no two draws want the same key
NeverStuck == Complete \/ ENABLED Next
\* galaxy i is the single realization with the i-th key, in every order of
\* draws, whatever the model and the inputs of the others
RowIsSingle == Complete => \A i \in 1..n : Outcome(i) = Single(GalKey(i), input[i])
AllDifferent == \A i, j \in 1..n : \A b \in DOMAIN drawn[i] : \A c \in DOMAIN drawn[j] : (<<i, b>> # <<j, c>>) => drawn[i][b] # drawn[j][c]
OneEach == Cardinality(consumed) = LET S(i) == Cardinality(DOMAIN drawn[i]) RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE S(k) + Sum(k - 1) IN Sum(n)
Terminates == <>Complete
=============================================================================
