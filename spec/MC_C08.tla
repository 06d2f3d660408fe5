------------------------------- MODULE MC_C08 -------------------------------
EXTENDS MultiStart, TLC
CONSTANTS GiveUp, MaxIters
VARIABLES st, tol, maxiter, hist, ret
vars == <<st, tol, maxiter, hist, ret>>
Losses == <<"nan", "0.05", "0.1", "0.3", "1500.0", "inf">>
Tols == {"0.1", "1000.0", "0.0"}
None == [none |-> TRUE]
Init == st = MsInit /\ tol \in Tols /\ maxiter \in MaxIters /\ hist = <<>> /\ ret = None
Running == ret = None
Reject == /\ Running /\ ~MsDone(st, R(tol), maxiter)
          /\ st' = MsRejected(st, GiveUp) /\ hist' = Append(hist, "g") /\ UNCHANGED <<tol, maxiter, ret>>
Descend == /\ Running /\ ~MsDone(st, R(tol), maxiter)
           /\ \E k \in 1..Len(Losses) : st' = MsUsable(st, R(Losses[k])) /\ hist' = Append(hist, Losses[k])
           /\ UNCHANGED <<tol, maxiter, ret>>
Return == /\ Running /\ MsDone(st, R(tol), maxiter)
          /\ ret' = (IF MsAllNaN(st.att) THEN [loss |-> FALLBACK, flag |-> -1, who |-> 0]
                     ELSE st.att[CHOOSE i \in 1..Len(st.att) : FEq(st.att[i].loss, MsBest(st.att))])
          /\ PrintT(<<"SCEN", tol, maxiter>> \o hist)
          /\ UNCHANGED <<st, tol, maxiter, hist>>
Spec == Init /\ [][Reject \/ Descend \/ Return]_vars /\ WF_vars(Reject \/ Descend \/ Return)

AtMost == Len(st.att) <= maxiter
AtLeastOne == (ret # None /\ maxiter >= 1) => Len(st.att) >= 1
EarlyOnlyIfReached == (ret # None /\ Len(st.att) < maxiter) =>
    \E i \in 1..Len(st.att) : st.att[i].loss \preceq R(tol)
Best == ret # None => MsResultOk(st.att, ret)
NeverNaN == ret # None => ~FNaN(ret.loss)
NeverWorse == ret # None => \A i \in 1..Len(st.att) : FNaN(st.att[i].loss) \/ ret.loss \preceq st.att[i].loss
FlagMeansDescent == ret # None => (ret.flag = 1) = (ret.who # 0)
Tries == st.tries < GiveUp
BestImproves == [][MsBest(st'.att) \preceq MsBest(st.att)]_vars
Terminates == <>(ret # None)
=============================================================================
