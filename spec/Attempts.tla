------------------------------ MODULE Attempts ------------------------------
(***************************************************************************)
(* Fitting again from new starting points, for ANY allowed number of       *)
(* attempts and ANY losses: what is kept is one of the attempts, none was  *)
(* better, and there are no more of them than allowed.  Losses are         *)
(* integers here (only their order matters); Nan is the loss of an attempt *)
(* which broke down.                                                       *)
(* proofs/Attempts_proof.tla has it for all of them; MC_Attempts.tla has   *)
(* that MultiStart.tla is an implementation of it.                         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Max, Tol, Losses, Nan, Fallback
VARIABLES n, loss, best, who
vars == <<n, loss, best, who>>
Init == n = 0 /\ loss = [i \in {} |-> Nan] /\ best = Nan /\ who = 0
Enough == best \in Int /\ best <= Tol
Attempt(x) == /\ n < Max /\ ~Enough
              /\ n' = n + 1
              /\ loss' = [i \in 1..(n + 1) |-> IF i = n + 1 THEN x ELSE loss[i]]
              /\ IF x \in Int /\ (best \notin Int \/ x < best) THEN best' = x /\ who' = n + 1 ELSE UNCHANGED <<best, who>>
Next == \E x \in Losses \cup {Nan} : Attempt(x)
Spec == Init /\ [][Next]_vars

Result == IF best \in Int THEN best ELSE Fallback
AtMost == n <= Max
NeverNan == Result # Nan
Best == \A i \in 1..n : loss[i] \in Int => Result <= loss[i]
OneOfThem == best \in Int => \E i \in 1..n : loss[i] = best
StopsAtTheFirst == \A i \in 1..n : loss[i] \in Int /\ loss[i] <= Tol => i = n
\* a further attempt never makes the result worse
NeverWorse == best \in Int => best' \in Int /\ best' <= best
=============================================================================
