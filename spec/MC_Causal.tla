------------------------------ MODULE MC_Causal ------------------------------
(* Is the judgement of a single run right about all of them?  Ranks with    *)
(* every small program of writing, reading and meeting, in every order.     *)
EXTENDS Causal, TLC
CONSTANTS NR, NF, MaxLen, Blind
VARIABLES prog, pc, files, got, log
vars == <<prog, pc, files, got, log>>
Ranks == 1..NR
Ops == {<<"w", f>> : f \in 1..NF} \cup {<<"r", f>> : f \in 1..NF} \cup {<<"bar", 0>>}
Bars(p) == Cardinality({i \in 1..Len(p) : p[i][1] = "bar"})
Progs == UNION {[1..n -> Ops] : n \in 0..MaxLen}
Init == /\ prog \in [Ranks -> Progs] /\ \A r, q \in Ranks : Bars(prog[r]) = Bars(prog[q])
        /\ pc = [r \in Ranks |-> 1] /\ files = [f \in 1..NF |-> <<0, 0>>] /\ got = [r \in Ranks |-> <<>>] /\ log = <<>>
\* how many meetings a rank has come to
Met(r) == Cardinality({n \in 1..Len(log) : log[n].k = "arrive" /\ log[n].r = r})
Left(r) == Cardinality({n \in 1..Len(log) : log[n].k = "pass" /\ log[n].r = r})
Waiting(r) == Met(r) > Left(r)
Event(r, op) == IF op[1] = "w" THEN [k |-> "open", r |-> r, fn |-> op[2], write |-> TRUE] ELSE [k |-> "read", r |-> r, fn |-> op[2]]
Do(r) == /\ pc[r] <= Len(prog[r]) /\ ~Waiting(r)
         /\ LET op == prog[r][pc[r]] IN
            IF op[1] = "bar" THEN log' = Append(log, [k |-> "arrive", r |-> r, c |-> Met(r), w |-> -2]) /\ UNCHANGED <<files, got, pc>>
            ELSE /\ log' = Append(log, Event(r, op)) /\ pc' = [pc EXCEPT ![r] = @ + 1]
                 /\ files' = IF op[1] = "w" THEN [files EXCEPT ![op[2]] = <<r, pc[r]>>] ELSE files
                 /\ got' = IF op[1] = "r" THEN [got EXCEPT ![r] = Append(@, files[op[2]])] ELSE got
         /\ UNCHANGED prog
Pass(r) == /\ Waiting(r) /\ \A q \in Ranks : Met(q) > Left(r)
           /\ log' = Append(log, [k |-> "pass", r |-> r, c |-> Left(r), w |-> -2]) /\ pc' = [pc EXCEPT ![r] = @ + 1]
           /\ UNCHANGED <<prog, files, got>>
Next == \E r \in Ranks : Do(r) \/ Pass(r)
Spec == Init /\ [][Next]_vars
Over == \A r \in Ranks : pc[r] > Len(prog[r])
\* the run in which the ranks take turns between meetings, in their order
Epoch(p, i) == Bars(SubSeq(p, 1, i - 1))
Turns == LET all == {<<e, r, i>> \in (0..MaxLen) \X Ranks \X (1..MaxLen) : i <= Len(prog[r]) /\ Epoch(prog[r], i) = e /\ prog[r][i][1] # "bar"}
         IN SetToSortSeq(all, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))))
InTurns == LET step(s, x) == LET op == prog[x[2]][x[3]] IN
                             IF op[1] = "w" THEN [s EXCEPT !.files[op[2]] = <<x[2], x[3]>>] ELSE [s EXCEPT !.got[x[2]] = Append(@, s.files[op[2]])]
           IN FoldLeft(step, [files |-> [f \in 1..NF |-> <<0, 0>>], got |-> [r \in Ranks |-> <<>>]], Turns)
\* uses which no meeting separates
Apart(r, i, q, j) == Epoch(prog[r], i) # Epoch(prog[q], j)
Racy == \E r \in Ranks : \E q \in Ranks \ {r} : \E i \in 1..Len(prog[r]) : \E j \in 1..Len(prog[q]) :
            /\ prog[r][i][1] = "w" /\ prog[q][j][1] \in {"w", "r"} /\ prog[r][i][2] = prog[q][j][2] /\ ~Apart(r, i, q, j)
\* the defective judgement: looks only at what happened in this run
Judge == IF Blind THEN \A n \in 1..Len(log) : log[n].k = "read" => \E m \in 1..(n - 1) : log[m].k = "open" /\ log[m].fn = log[n].fn
         ELSE RaceFree(log, Ranks)
\* every run of a program is judged alike, by the program alone
SameVerdict == Over => (Judge <=> ~Racy)
\* and what is judged free of races does not depend on who is fast
Determined == Over /\ Judge => [files |-> files, got |-> got] = InTurns
=============================================================================
