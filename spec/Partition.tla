------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* The blocks of a catalogue of N galaxies split over K ranks, both        *)
(* counted from 0: rank r takes the galaxies Lo(r) .. Lo(r+1)-1.           *)
(* proofs/Partition_proof.tla has for EVERY N and K that every galaxy is   *)
(* exactly one rank's, in order, and that the blocks are as equal as can   *)
(* be; MC_Meeting.tla has that these are the blocks of Pipeline.tla.       *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS N, K
Q == N \div K
M == N % K
Min(a, b) == IF a < b THEN a ELSE b
Lo(r) == r * Q + Min(r, M)
Size(r) == Q + (IF r < M THEN 1 ELSE 0)
Mine(r) == {g \in 0..(N - 1) : Lo(r) <= g /\ g < Lo(r + 1)}
==============================================================================
