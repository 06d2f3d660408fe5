------------------------------- MODULE Causal -------------------------------
(***************************************************************************)
(* What a recorded run of ranks says about the runs which were not         *)
(* recorded.  An event of a log happens before another if it precedes it   *)
(* on the same rank, or in time and through a meeting of the ranks.  Two   *)
(* uses of a file by different ranks, one of which changes it, are a race  *)
(* if neither happens before the other: other speeds of the ranks exchange *)
(* them, even if this run went well.                                       *)
(*                                                                         *)
(* An event has a rank r and a kind k: "arrive" and "pass" at meeting c    *)
(* (w = whom the rank waits for: -2 all, -1 nobody, else that rank) or a   *)
(* use of files: open, close (write or not), read, rm (files).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* the uses of an event: <<file, changes it>>
Uses(x) == CASE x.k = "open" -> {<<x.fn, x.write>>}
             [] x.k = "close" -> {<<x.fn, x.write>>}
             [] x.k = "read" -> {<<x.fn, FALSE>>}
             [] x.k = "rm" -> {<<x.files[i], TRUE>> : i \in 1..Len(x.files)}
             [] OTHER -> {}
\* the events which happened before each event of the log
Pasts(log, ranks) ==
    LET step(a, n) ==
            LET x == log[n]
                posted == IF x.k = "pass" THEN {q \in ranks : <<x.c, q>> \in DOMAIN a.at /\ (x.w = -2 \/ x.w = q)} ELSE {}
                past == a.now[x.r] \cup UNION {a.at[<<x.c, q>>] : q \in posted}
            IN [now |-> [a.now EXCEPT ![x.r] = past \cup {n}],
                at |-> IF x.k = "arrive" THEN [m \in DOMAIN a.at \cup {<<x.c, x.r>>} |-> IF m = <<x.c, x.r>> THEN past \cup {n} ELSE a.at[m]] ELSE a.at,
                past |-> Append(a.past, past)]
    IN FoldLeft(step, [now |-> [r \in ranks |-> {}], at |-> [m \in {} |-> {}], past |-> <<>>], [n \in 1..Len(log) |-> n]).past
Clash(x, y) == x.r # y.r /\ \E u \in Uses(x), v \in Uses(y) : u[1] = v[1] /\ (u[2] \/ v[2])
Races(log, ranks) ==
    LET past == Pasts(log, ranks)
        used == {n \in 1..Len(log) : Uses(log[n]) # {}}
    IN {<<i, j>> \in used \X used : i < j /\ i \notin past[j] /\ Clash(log[i], log[j])}
RaceFree(log, ranks) == Races(log, ranks) = {}
=============================================================================
