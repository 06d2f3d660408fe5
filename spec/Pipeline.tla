------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A fitting run split over ranks.  Each subvolume's galaxies are split    *)
(* into contiguous blocks, one per rank; a rank fits its galaxies into a   *)
(* file of its own, whose lines reach the disk when it is closed; all      *)
(* ranks meet; rank 1 collates the files in rank order into the            *)
(* subvolume's output and then removes them.                               *)
(*                                                                         *)
(* `Bars` says where the ranks meet; `Glob` whether removal takes the      *)
(* subvolume's own files or every temporary file of the directory.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* the block of rank r (1..R) of n galaxies, sizes as equal as they can be
BlockSize(n, R, r) == (n \div R) + (IF r <= n % R THEN 1 ELSE 0)
BlockStart(n, R, r) == (r - 1) * (n \div R) + (IF r - 1 <= n % R THEN r - 1 ELSE n % R)
Block(n, R, r) == [i \in 1..BlockSize(n, R, r) |-> BlockStart(n, R, r) + i]
Blocks(n, R) == [r \in 1..R |-> Block(n, R, r)]
\* what a partition is for: every galaxy once, in order
IsPartition(bs, n) == FlattenSeq(bs) = [i \in 1..n |-> i]

\* a rank's program: the stages of one subvolume
Stages == <<"loop", "open", "fit", "close", "meet", "collate", "output", "remove">>

\* a run: [R, vols, bars, glob]; vols[v] = number of galaxies
Start(run) ==
    [v |-> [r \in 1..run.R |-> 1], pc |-> [r \in 1..run.R |-> "loop"],
     left |-> [r \in 1..run.R |-> <<>>], buf |-> [r \in 1..run.R |-> <<>>],
     files |-> [v \in 1..Len(run.vols) |-> [r \in 1..run.R |-> "none"]],   \* "none" or what is on disk
     disk |-> [v \in 1..Len(run.vols) |-> [r \in 1..run.R |-> <<>>]],
     met |-> [r \in 1..run.R |-> 0], waiting |-> [r \in 1..run.R |-> FALSE],
     got |-> <<>>, outs |-> [v \in 1..Len(run.vols) |-> <<>>], hasout |-> [v \in 1..Len(run.vols) |-> FALSE],
     fits |-> <<>>, torn |-> FALSE, lost |-> FALSE]

Met(run, s, r) == \A q \in 1..run.R : s.met[q] >= s.met[r]
Enabled(run, s, r) == s.pc[r] # "done" /\ (s.waiting[r] => Met(run, s, r))
\* arriving at a meeting point, or passing by where there is none
Arrive(run, s, r, where, next) ==
    IF where \in run.bars THEN [s EXCEPT !.met[r] = @ + 1, !.waiting[r] = TRUE, !.pc[r] = next] ELSE [s EXCEPT !.pc[r] = next]
Move(run, s0, r) ==
    LET s == [s0 EXCEPT !.waiting[r] = FALSE]
        v == s.v[r]
        over == v = Len(run.vols)
    IN CASE s.pc[r] = "loop" -> Arrive(run, [s EXCEPT !.left[r] = Block(run.vols[v], run.R, r), !.buf[r] = <<>>], r, "loop", "open")
         [] s.pc[r] = "open" -> [s EXCEPT !.files[v][r] = "open", !.disk[v][r] = <<>>, !.pc[r] = (IF s.left[r] = <<>> THEN "close" ELSE "fit")]
         [] s.pc[r] = "fit" -> [s EXCEPT !.fits = Append(@, <<v, Head(s.left[r])>>), !.buf[r] = Append(@, Head(s.left[r])), !.left[r] = Tail(@),
                                         !.pc[r] = (IF Len(s.left[r]) = 1 THEN "close" ELSE "fit")]
         [] s.pc[r] = "close" -> [s EXCEPT !.files[v][r] = "closed", !.disk[v][r] = s.buf[r], !.pc[r] = "meet"]
         [] s.pc[r] = "meet" -> Arrive(run, s, r, "meet", IF r = 1 THEN "collate" ELSE IF over THEN "done" ELSE "next")
         [] s.pc[r] = "collate" -> [s EXCEPT !.torn = @ \/ (\E q \in 1..run.R : s.files[v][q] # "closed"),
                                             !.got = FlattenSeq([q \in 1..run.R |-> s.disk[v][q]]), !.pc[r] = "output"]
         [] s.pc[r] = "output" -> [s EXCEPT !.outs[v] = s.got, !.hasout[v] = TRUE, !.pc[r] = "remove"]
         [] s.pc[r] = "remove" ->
              LET taken == IF run.glob THEN 1..Len(run.vols) ELSE {v} IN
              [s EXCEPT !.lost = @ \/ (\E w \in taken : ~s.hasout[w] /\ \E q \in 1..run.R : s.files[w][q] # "none"),
                        !.files = [w \in 1..Len(run.vols) |-> IF w \in taken THEN [q \in 1..run.R |-> "none"] ELSE s.files[w]],
                        !.disk = [w \in 1..Len(run.vols) |-> IF w \in taken THEN [q \in 1..run.R |-> <<>>] ELSE s.disk[w]],
                        !.pc[r] = (IF over THEN "done" ELSE "next")]
         [] s.pc[r] = "next" -> [s EXCEPT !.v[r] = @ + 1, !.pc[r] = "loop"]

Finished(run, s) == \A r \in 1..run.R : s.pc[r] = "done"
NeverTorn(s) == ~s.torn
NothingLost(s) == ~s.lost
FittedOnce(s) == \A i, j \in 1..Len(s.fits) : s.fits[i] = s.fits[j] => i = j
AllFitted(run, s) == Finished(run, s) => \A v \in 1..Len(run.vols) : \A g \in 1..run.vols[v] : \E i \in 1..Len(s.fits) : s.fits[i] = <<v, g>>
InOrder(run, s) == Finished(run, s) => \A v \in 1..Len(run.vols) : s.outs[v] = [i \in 1..run.vols[v] |-> i]
Progress(run, s) == Finished(run, s) \/ \E r \in 1..run.R : Enabled(run, s, r)
=============================================================================
