---------------------------- MODULE Partition_proof ----------------------------
EXTENDS Partition, NaturalsInduction, TLAPS
ASSUME NK == N \in Nat /\ K \in Nat /\ K > 0

THEOREM Division == N = K * Q + M /\ M \in 0..(K - 1) /\ Q \in Nat
  BY NK DEF Q, M
LEMMA LoInt == \A r \in Nat : Lo(r) \in Int
  <1> TAKE r \in Nat
  <1>1. r * Q \in Int BY Division
  <1> QED BY <1>1, Division DEF Lo, Min
THEOREM First == Lo(0) = 0
  BY Division DEF Lo, Min
THEOREM Last == Lo(K) = N
  BY Division, NK DEF Lo, Min
THEOREM Rising == \A r \in 0..(K - 1) : Lo(r + 1) = Lo(r) + Size(r)
  <1> TAKE r \in 0..(K - 1)
  <1>1. (r + 1) * Q = r * Q + Q BY Division
  <1>2. r * Q \in Int BY Division
  <1> QED BY <1>1, <1>2, Division, NK DEF Lo, Min, Size
\* no rank takes two galaxies more than another
THEOREM Even == \A r, q \in 0..(K - 1) : Size(r) <= Size(q) + 1
  BY Division DEF Size

\* the starts of the blocks never fall
THEOREM Monotone == \A r \in 0..K : \A q \in 0..K : r <= q => Lo(r) <= Lo(q)
  <1> TAKE r \in 0..K
  <1> DEFINE P(q) == q <= K /\ r <= q => Lo(r) <= Lo(q)
  <1>1. P(0) BY LoInt, NK
  <1>2. ASSUME NEW q \in Nat, P(q) PROVE P(q + 1)
    <2> SUFFICES ASSUME q + 1 <= K, r <= q + 1 PROVE Lo(r) <= Lo(q + 1)
      OBVIOUS
    <2>1. CASE r = q + 1 BY <2>1, LoInt, NK
    <2>2. CASE r <= q
      <3>1. Lo(r) <= Lo(q) BY <1>2, <2>2, NK
      <3>2. Lo(q + 1) = Lo(q) + Size(q) BY Rising, NK
      <3>3. Size(q) \in Nat BY Division DEF Size
      <3> HIDE DEF P
      <3> QED BY <3>1, <3>2, <3>3, LoInt, NK
    <2> QED BY <2>1, <2>2, NK
  <1> HIDE DEF P
  <1>3. \A q \in Nat : P(q) BY <1>1, <1>2, NatInduction
  <1> QED BY <1>3, NK DEF P

\* every galaxy is some rank's
THEOREM Covered == \A g \in 0..(N - 1) : \E r \in 0..(K - 1) : g \in Mine(r)
  <1> TAKE g \in 0..(N - 1)
  <1> DEFINE P(q) == q <= K => (g >= Lo(q) \/ \E r \in 0..(K - 1) : g \in Mine(r))
  <1>1. P(0) BY First, NK
  <1>2. ASSUME NEW q \in Nat, P(q) PROVE P(q + 1)
    <2> SUFFICES ASSUME q + 1 <= K, ~(\E r \in 0..(K - 1) : g \in Mine(r)) PROVE g >= Lo(q + 1)
      OBVIOUS
    <2>1. g >= Lo(q) BY <1>2, NK
    <2>2. q \in 0..(K - 1) BY NK
    <2>3. ~(g \in Mine(q)) BY <2>2
    <2> QED BY <2>1, <2>3, LoInt, NK DEF Mine
  <1> HIDE DEF P
  <1>3. \A q \in Nat : P(q) BY <1>1, <1>2, NatInduction
  <1>4. P(K) BY <1>3, NK
  <1> QED BY <1>4, Last, NK DEF P

\* and no other's
THEOREM Disjoint == \A r, q \in 0..(K - 1) : r < q => Mine(r) \cap Mine(q) = {}
  <1> TAKE r, q \in 0..(K - 1)
  <1> HAVE r < q
  <1>1. Lo(r + 1) <= Lo(q) BY Monotone, NK
  <1> QED BY <1>1, LoInt, NK DEF Mine
=============================================================================
