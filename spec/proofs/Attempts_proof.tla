--------------------------- MODULE Attempts_proof ---------------------------
EXTENDS Attempts, TLAPS
ASSUME Given == Losses \subseteq Int /\ Max \in Nat /\ Tol \in Int /\ Nan \notin Int /\ Fallback \in Int
Inv == /\ n \in 0..Max /\ loss \in [1..n -> Int \cup {Nan}] /\ best \in Int \cup {Nan}
       /\ who \in 0..n
       /\ best = Nan => who = 0 /\ \A i \in 1..n : loss[i] = Nan
       /\ best \in Int => who \in 1..n /\ loss[who] = best /\ \A i \in 1..n : loss[i] = Nan \/ best <= loss[i]
       /\ \A i \in 1..n : i < n => loss[i] = Nan \/ loss[i] > Tol

THEOREM Initially == Init => Inv
  BY Given DEF Init, Inv
THEOREM Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1> USE Given
  <1>1. ASSUME NEW x \in Losses \cup {Nan}, Attempt(x) PROVE Inv'
    <2>1. n + 1 \in 1..Max BY <1>1 DEF Attempt, Inv
    <2>2. loss' \in [1..n' -> Int \cup {Nan}] BY <1>1, <2>1 DEF Attempt, Inv
    <2>3. \A i \in 1..n : loss'[i] = loss[i] BY <1>1, <2>1 DEF Attempt, Inv
    <2>4. loss'[n'] = x /\ n' = n + 1 BY <1>1, <2>1 DEF Attempt, Inv
    <2>5. \A i \in 1..n : loss[i] = Nan \/ loss[i] > Tol
      BY <1>1 DEF Attempt, Enough, Inv
    <2>6. CASE x \in Int /\ (best \notin Int \/ x < best)
      <3>1. best' = x /\ who' = n + 1 BY <1>1, <2>6 DEF Attempt
      <3> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <3>1 DEF Inv
    <2>7. CASE ~(x \in Int /\ (best \notin Int \/ x < best))
      <3>1. best' = best /\ who' = who BY <1>1, <2>7 DEF Attempt
      <3> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>7, <3>1 DEF Inv
    <2> QED BY <2>6, <2>7
  <1>2. ASSUME UNCHANGED vars PROVE Inv'
    BY <1>2 DEF vars, Inv
  <1> QED BY <1>1, <1>2 DEF Next
THEOREM Safe == Inv => AtMost /\ NeverNan /\ Best /\ OneOfThem /\ StopsAtTheFirst
  BY Given DEF Inv, AtMost, NeverNan, Best, OneOfThem, StopsAtTheFirst, Result
THEOREM Improves == Inv /\ [Next]_vars => NeverWorse
  <1> SUFFICES ASSUME Inv, [Next]_vars, best \in Int PROVE best' \in Int /\ best' <= best
    BY DEF NeverWorse
  <1>1. CASE UNCHANGED vars BY <1>1 DEF vars
  <1>2. ASSUME NEW x \in Losses \cup {Nan}, Attempt(x) PROVE best' \in Int /\ best' <= best
    BY <1>2 DEF Attempt
  <1> QED BY <1>1, <1>2 DEF Next
THEOREM Always == Spec => [](AtMost /\ NeverNan /\ Best /\ OneOfThem /\ StopsAtTheFirst)
  BY Initially, Step, Safe, PTL DEF Spec
=============================================================================
