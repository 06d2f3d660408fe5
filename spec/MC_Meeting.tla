----------------------------- MODULE MC_Meeting -----------------------------
(* Pipeline.tla implements Meeting.tla: with the galaxies left out, every  *)
(* run of the pipeline is a run of the meeting (which is proved safe for   *)
(* any number of ranks and subvolumes).                                    *)
EXTENDS Pipeline, TLC
CONSTANTS Nranks, Sizes, Bars, Blocksum
TwoVols == <<2, 1>>
ThreeVols == <<2, 1, 2>>
VARIABLES s
Run == [R |-> Nranks, vols |-> Sizes, bars |-> Bars, glob |-> FALSE]
Init == s = Start(Run)
Next == \E r \in 1..Nranks : Enabled(Run, s, r) /\ s' = Move(Run, s, r)
Spec == Init /\ [][Next]_s
Closed(r) == s.pc[r] \in {"meet", "collate", "output", "remove", "next", "done"}
Wrote == [r \in 1..Nranks |-> s.v[r] - 1 + (IF Closed(r) THEN 1 ELSE 0)]
Read == s.v[1] - 1 + (IF s.pc[1] \in {"output", "remove", "next", "done"} THEN 1 ELSE 0)
Gone == s.v[1] - 1 + (IF s.pc[1] \in {"next", "done"} THEN 1 ELSE 0)
M == INSTANCE Meeting WITH Ranks <- 1..Nranks, First <- 1, V <- Len(Sizes),
                           wrote <- Wrote, met <- s.met, read <- Read, gone <- Gone, torn <- s.torn
Implements == M!Spec
Safe == M!NeverTorn /\ M!NothingLost /\ M!Together

\* and its blocks are those of Partition.tla
P(n, k) == INSTANCE Partition WITH N <- n, K <- k
ASSUME \A n \in 0..Blocksum : \A k \in 1..Blocksum : \A r \in 1..k :
    /\ BlockStart(n, k, r) = P(n, k)!Lo(r - 1)
    /\ BlockSize(n, k, r) = P(n, k)!Size(r - 1)
    /\ {Block(n, k, r)[i] - 1 : i \in 1..BlockSize(n, k, r)} = P(n, k)!Mine(r - 1)
=============================================================================
