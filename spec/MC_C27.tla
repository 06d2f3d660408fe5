------------------------------- MODULE MC_C27 -------------------------------
(* Every interleaving of the ranks of a fitting run, for every rank count, *)
(* catalogue size and number of subvolumes up to the bounds.               *)
EXTENDS Pipeline, TLC
CONSTANTS MaxR, MaxN, MaxV, Bars, Glob, Export
VARIABLES run, s, sched
vars == <<run, s, sched>>
Kinds == {"f", "u", "l", "s"}
Runs == {[R |-> R, vols |-> w, bars |-> Bars, glob |-> Glob] :
            R \in 1..MaxR, w \in UNION {[1..v -> 1..MaxN] : v \in 1..MaxV}}
Scenarios(r) == IF ~Export \/ \E v \in 2..Len(r.vols) : r.vols[v] # r.vols[1] THEN TRUE
                ELSE \A k \in [1..r.vols[1] -> Kinds] : PrintT(<<"SCEN", r.R, Len(r.vols)>> \o k)
Init == run \in Runs /\ s = Start(run) /\ sched = <<>> /\ Scenarios(run)
Next == /\ \E r \in 1..run.R : Enabled(run, s, r) /\ s' = Move(run, s, r)
        /\ UNCHANGED <<run, sched>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Partition == IsPartition(Blocks(run.vols[1], run.R), run.vols[1])
Whole == NeverTorn(s)
Kept == NothingLost(s)
Once == FittedOnce(s)
Every == AllFitted(run, s)
Ordered == InOrder(run, s)
NoDeadlock == Progress(run, s)
Terminates == <>Finished(run, s)

\* the same with the order of moves written down (two ranks)
SInit == /\ run = [R |-> 2, vols |-> <<2>>, bars |-> Bars, glob |-> Glob] /\ s = Start(run) /\ sched = <<>>
SNext == \E r \in 1..run.R :
    /\ Enabled(run, s, r) /\ s' = Move(run, s, r) /\ sched' = Append(sched, r - 1) /\ UNCHANGED run
    /\ Finished(run, s') => PrintT(<<"SCEN">> \o sched')
SSpec == SInit /\ [][SNext]_vars
=============================================================================
