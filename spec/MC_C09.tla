------------------------------- MODULE MC_C09 -------------------------------
(* The ladder walked rung by rung; the loss of a rung is chosen when it is *)
(* first visited.  Phases: nwarm warm-ups, then the main run; the combined *)
(* minimizer first tries a quasi-Newton run which converges or not.        *)
EXTENDS AdamFit, TLC, FiniteSets
CONSTANTS WN, MN, Stride, Values
VARIABLES table, start, pos, seen, phase, nwarm, qn, res
vars == <<table, start, pos, seen, phase, nwarm, qn, res>>
Size == 2 * WN * Stride + MN + 1
Unset == 99
Nothing == [none |-> TRUE]
Init == /\ table = [i \in 1..Size |-> Unset] /\ start = 0 /\ pos = 0 /\ seen = <<>>
        /\ nwarm \in 0..2 /\ phase = 0
        /\ qn = "none" /\ res = Nothing
Main == phase = nwarm
Limit == IF Main THEN MN ELSE WN
Running == res = Nothing /\ qn \in {"failed", "adam_only"}
\* the combined minimizer always does two warm-ups; Adam alone any number
Choose == /\ qn = "none" /\ res = Nothing
          /\ qn' \in (IF nwarm = 2 THEN {"converged", "failed", "adam_only"} ELSE {"adam_only"})
          /\ res' = (IF qn' = "converged" THEN [success |-> 1] ELSE Nothing)
          /\ UNCHANGED <<table, start, pos, seen, phase, nwarm>>
Reveal == /\ Running /\ Len(seen) < Limit /\ table[pos + 1] = Unset
          /\ \E v \in Values : table' = [table EXCEPT ![pos + 1] = v]
          /\ UNCHANGED <<start, pos, seen, phase, nwarm, qn, res>>
Known == Running /\ Len(seen) < Limit /\ table[pos + 1] # Unset
Visit == /\ Known /\ table[pos + 1] # BADCELL
         /\ seen' = Append(seen, pos) /\ pos' = pos + (IF Main THEN 1 ELSE Stride)
         /\ UNCHANGED <<table, start, phase, nwarm, qn, res>>
W(b) == [pos |-> pos, seen |-> seen, bad |-> b]
\* every run ends at its limit or at a bad rung
Ended == Running /\ (Len(seen) = Limit \/ (table[pos + 1] = BADCELL))
Full == [i \in 1..Size |-> IF table[i] = Unset THEN 1 ELSE table[i]]
EndWarmup == /\ Ended /\ ~Main
             /\ LET b == BestRung(table, W(TRUE), start) IN start' = b /\ pos' = b
             /\ seen' = <<>> /\ phase' = phase + 1 /\ UNCHANGED <<table, nwarm, qn, res>>
EndMain == /\ Ended /\ Main
           /\ LET done == Len(seen) = Limit IN
              res' = [best |-> BestRung(table, W(~done), start), completed |-> done,
                      success |-> IF done THEN 0 ELSE -1]
           /\ PrintT(<<"SCEN", qn, nwarm>> \o Full)
           /\ UNCHANGED <<table, start, pos, seen, phase, nwarm, qn>>
Next == Choose \/ Reveal \/ Visit \/ EndWarmup \/ EndMain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Rungs == {seen[i] : i \in 1..Len(seen)}
Adam == res # Nothing /\ qn # "converged"
RecordFinite == \A i \in 1..Len(seen) : table[seen[i] + 1] \notin {BADCELL, Unset}
BestOfVisited == (Adam /\ seen # <<>>) => res.best \in Rungs /\ \A r \in Rungs : table[res.best + 1] <= table[r + 1]
NothingVisited == (Adam /\ seen = <<>>) => res.best = start /\ ~res.completed
HonestFlag == Adam => (res.completed = (Len(seen) = MN)) /\ (res.completed = (res.success = 0))
FirstIsStart == seen # <<>> => seen[1] = start
\* warm-ups never make things worse than the first start
WarmupHelps == (phase > 0 /\ table[1] \notin {BADCELL, Unset}) => table[start + 1] # BADCELL /\ table[start + 1] <= table[1]
\* the functional form used to validate recorded runs is this machine
Functional == Adam => LET f == AdamLadder(Full, 0, nwarm, Stride, WN, MN) IN
    f.seen = seen /\ f.best = res.best /\ f.completed = res.completed /\ f.start = start
OnlyFallback == qn = "converged" => (phase = 0 /\ seen = <<>>)
Terminates == <>(res # Nothing)
=============================================================================
