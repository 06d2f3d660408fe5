------------------------------- MODULE Meeting -------------------------------
(***************************************************************************)
(* The meeting of the ranks with the galaxies left out: any set of ranks,  *)
(* any number of subvolumes.  The collator reads a subvolume's files only  *)
(* when every rank has closed its own, and what is removed was read        *)
(* before.  proofs/Meeting_proof.tla has it for every set of ranks;        *)
(* MC_Meeting.tla has that Pipeline.tla is an implementation of it.        *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Ranks, First, V
VARIABLES wrote,    \* wrote[r]: files closed by r, one per subvolume in turn
          met,      \* met[r]: meeting points r has reached
          read,     \* subvolumes read by the collator
          gone,     \* subvolumes whose files are removed
          torn      \* a file was read before it was closed
vars == <<wrote, met, read, gone, torn>>
Init == /\ wrote = [r \in Ranks |-> 0] /\ met = [r \in Ranks |-> 0]
        /\ read = 0 /\ gone = 0 /\ torn = FALSE
\* everybody is where r is
All(r) == \A q \in Ranks : met[q] >= met[r]
Write(r) == /\ wrote[r] = met[r] /\ All(r) /\ wrote[r] < V /\ (r = First => gone = met[r])
            /\ wrote' = [wrote EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<met, read, gone, torn>>
Arrive(r) == /\ met[r] < wrote[r]
             /\ met' = [met EXCEPT ![r] = @ + 1]
             /\ UNCHANGED <<wrote, read, gone, torn>>
Collate == /\ All(First) /\ read < met[First] /\ read = gone
           /\ read' = read + 1
           /\ torn' = (torn \/ \E q \in Ranks : wrote[q] < read + 1)
           /\ UNCHANGED <<wrote, met, gone>>
Remove == /\ gone < read
          /\ gone' = gone + 1
          /\ UNCHANGED <<wrote, met, read, torn>>
Next == (\E r \in Ranks : Write(r) \/ Arrive(r)) \/ Collate \/ Remove
Spec == Init /\ [][Next]_vars

NeverTorn == ~torn
NothingLost == gone <= read
\* nobody is more than one subvolume ahead of anybody
Together == \A r, q \in Ranks : met[r] <= met[q] + 1
=============================================================================
