------------------------------- MODULE MC_C34 -------------------------------
(* Ranks fit the growth histories of their own halos.  A history which ends *)
(* before the last time of the whole catalogue is continued to it at its    *)
(* final mass; one which is too short is marked instead of fitted.  Rank 1  *)
(* joins what the ranks wrote in the order of the catalogue.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxR, MaxN, Design
VARIABLES halos, nr, pc, offer, last, file, done, order, out, gone
vars == <<halos, nr, pc, offer, last, file, done, order, out, gone>>
Kinds == {"f", "e", "s"}          \* lives to the end; ends early; too short
N == Len(halos)
EndOf(k) == IF k = "f" THEN 3 ELSE 2
\* even blocks of the catalogue, the first ones longer by one
Size(r) == (N \div nr) + (IF r <= N % nr THEN 1 ELSE 0)
RECURSIVE First(_)
First(r) == IF r = 1 THEN 0 ELSE First(r - 1) + Size(r - 1)
Block(r) == {First(r) + i : i \in 1..Size(r)}
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
LastOf(S) == MaxSet({0} \cup {EndOf(halos[g]) : g \in S})
Row(r, g) == [halo |-> g, to |-> IF Design = "local" THEN LastOf(Block(r)) ELSE last[r], fit |-> halos[g] # "s"]
Init == /\ nr \in 1..MaxR /\ halos \in UNION {[1..n -> Kinds] : n \in 1..MaxN}
        /\ pc = [r \in 1..nr |-> "offer"] /\ offer = [r \in 1..nr |-> 0] /\ last = [r \in 1..nr |-> 0]
        /\ file = [r \in 1..nr |-> <<>>] /\ done = [r \in 1..nr |-> FALSE] /\ order = <<>> /\ out = <<>> /\ gone = FALSE
        /\ PrintT(<<"SCEN", nr>> \o halos)
Offer(r) == /\ pc[r] = "offer" /\ pc' = [pc EXCEPT ![r] = "reduce"] /\ offer' = [offer EXCEPT ![r] = LastOf(Block(r))]
            /\ UNCHANGED <<halos, nr, last, file, done, order, out, gone>>
Reduce(r) == /\ pc[r] = "reduce" /\ \A q \in 1..nr : pc[q] # "offer"
             /\ pc' = [pc EXCEPT ![r] = "fit"] /\ last' = [last EXCEPT ![r] = MaxSet({offer[q] : q \in 1..nr})]
             /\ UNCHANGED <<halos, nr, offer, file, done, order, out, gone>>
Fit(r) == /\ pc[r] = "fit"
          /\ IF Len(file[r]) < Size(r)
             THEN file' = [file EXCEPT ![r] = Append(@, Row(r, First(r) + Len(@) + 1))] /\ UNCHANGED <<pc, done, order>>
             ELSE /\ pc' = [pc EXCEPT ![r] = "meet"] /\ done' = [done EXCEPT ![r] = TRUE] /\ order' = Append(order, r) /\ UNCHANGED file
          /\ UNCHANGED <<halos, nr, offer, last, out, gone>>
Meet(r) == /\ pc[r] = "meet" /\ (Design = "no_meeting" \/ \A q \in 1..nr : pc[q] \notin {"offer", "reduce", "fit"})
           /\ pc' = [pc EXCEPT ![r] = IF r = 1 THEN "join" ELSE "end"] /\ UNCHANGED <<halos, nr, offer, last, file, done, order, out, gone>>
RECURSIVE Joined(_)
Joined(qs) == IF qs = <<>> THEN <<>> ELSE file[Head(qs)] \o Joined(Tail(qs))
Join == /\ pc[1] = "join" /\ pc' = [pc EXCEPT ![1] = "remove"]
        /\ out' = Joined(IF Design = "as_written" THEN order ELSE [r \in 1..nr |-> r])
        /\ UNCHANGED <<halos, nr, offer, last, file, done, order, gone>>
Remove == /\ pc[1] = "remove" /\ pc' = [pc EXCEPT ![1] = "end"] /\ gone' = TRUE /\ UNCHANGED <<halos, nr, offer, last, file, done, order, out>>
Next == Join \/ Remove \/ \E r \in 1..nr : Offer(r) \/ Reduce(r) \/ Fit(r) \/ Meet(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == \A r \in 1..nr : pc[r] = "end"
\* one row per halo in the order of the catalogue, each continued to the last time of all
Rows == pc[1] \in {"remove", "end"} =>
          out = [g \in 1..N |-> [halo |-> g, to |-> LastOf(1..N), fit |-> halos[g] # "s"]]
Terminates == <>Ended
=============================================================================
