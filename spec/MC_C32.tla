------------------------------- MODULE MC_C32 -------------------------------
(* The fitting loop step by step; what an evaluation gives is chosen when    *)
(* its point is first visited.                                               *)
EXTENDS PopFit, TLC, FiniteSets
CONSTANTS N, Losses, Design
VARIABLES codes, step, cur, trial, lastg, arr, done, result
vars == <<codes, step, cur, trial, lastg, arr, done, result>>
\* arr[k] = <<point, loss>> filed at step k, or <<>>
Init == /\ codes = <<>> /\ step = 1 /\ cur = 0 /\ trial = 0 /\ lastg = 0 /\ arr = [k \in 1..N |-> <<>>] /\ done = FALSE /\ result = 0
Visit(v) == codes' = Append(codes, v)
\* the start is usable
First == /\ codes = <<>> /\ \E v \in Losses : Visit(v) /\ cur' = 1 /\ UNCHANGED <<step, trial, lastg, arr, done, result>>
Live == ~done /\ step <= N /\ codes # <<>>
Arrive == /\ Live /\ cur = 0 /\ \E v \in Losses \cup {BADLOSS, BADGRAD} : Visit(v) /\ cur' = Len(codes) + 1
          /\ UNCHANGED <<step, trial, lastg, arr, done, result>>
Good == /\ Live /\ cur # 0 /\ trial = 0 /\ Usable(codes[cur])
        /\ arr' = [arr EXCEPT ![step] = <<cur, codes[cur]>>] /\ lastg' = cur /\ cur' = 0 /\ step' = step + 1
        /\ UNCHANGED <<codes, trial, done, result>>
Stop == /\ Live /\ cur # 0 /\ trial = 0 /\ codes[cur] = BADGRAD /\ done' = TRUE
        /\ UNCHANGED <<codes, step, cur, trial, lastg, arr, result>>
Try == /\ Live /\ cur # 0 /\ trial = 0 /\ codes[cur] = BADLOSS
       /\ \E v \in Losses \cup {BADLOSS, BADGRAD} : Visit(v) /\ trial' = Len(codes) + 1
       /\ UNCHANGED <<step, cur, lastg, arr, done, result>>
Rescued == /\ Live /\ trial # 0 /\ Usable(codes[trial])
           /\ arr' = [arr EXCEPT ![step] = <<IF Design = "misfiled" THEN cur ELSE trial, codes[trial]>>]
           /\ lastg' = trial /\ cur' = 0 /\ trial' = 0 /\ step' = step + 1 /\ UNCHANGED <<codes, done, result>>
Lost == /\ Live /\ trial # 0 /\ ~Usable(codes[trial]) /\ trial' = 0 /\ step' = step + 1
        /\ UNCHANGED <<codes, cur, lastg, arr, done, result>>
End == ~done /\ step > N /\ done' = TRUE /\ UNCHANGED <<codes, step, cur, trial, lastg, arr, result>>
Filed == {k \in 1..N : arr[k] # <<>>}
Pick == /\ done /\ result = 0
        /\ result' = (IF Design = "last" THEN arr[CHOOSE k \in Filed : \A j \in Filed : j <= k][1]
                      ELSE arr[CHOOSE k \in Filed : \A j \in Filed : arr[k][2] < arr[j][2] \/ (arr[k][2] = arr[j][2] /\ k <= j)][1])
        /\ PrintT(<<"SCEN">> \o codes)
        /\ UNCHANGED <<codes, step, cur, trial, lastg, arr, done>>
Next == First \/ Arrive \/ Good \/ Stop \/ Try \/ Rescued \/ Lost \/ End \/ Pick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good0 == {p \in 1..Len(codes) : Usable(codes[p])}
BestVisited == result # 0 => result \in Good0 /\ \A p \in Good0 : codes[result] <= codes[p]
OneEach == Cardinality(Filed) = Cardinality(Good0) - (IF cur # 0 /\ Usable(codes[cur]) THEN 1 ELSE 0) - (IF trial # 0 /\ Usable(codes[trial]) THEN 1 ELSE 0)
AtMost == Len(codes) <= 2 * N
Functional == result # 0 => LET f == Flow(codes, N)
                                rec == SelectSeq(arr, LAMBDA a : a # <<>>)
                            IN /\ f.rec = [k \in 1..Len(rec) |-> rec[k][1]]
                               /\ BestOf(f.rec, codes) = result /\ ~f.short /\ Asked(f) = Len(codes)
Terminates == <>(result # 0)
=============================================================================
