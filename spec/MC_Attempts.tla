---------------------------- MODULE MC_Attempts ----------------------------
(* MultiStart.tla implements Attempts.tla (which is proved for any number  *)
(* of attempts and any losses): losses are mapped to their rank.           *)
EXTENDS MultiStart, TLC
CONSTANTS GiveUp, MaxIter, TolText, Nan
VARIABLES st
Texts == <<"0.0", "0.05", "0.1", "0.3", "999.99", "1000.0", "1500.0", "inf">>
Rank(x) == IF FNaN(x) THEN Nan ELSE CHOOSE i \in 1..Len(Texts) : FEq(x, R(Texts[i]))
Draws == {"nan"} \cup {Texts[i] : i \in {2, 3, 4, 7, 8}}
Init == st = MsInit
Next == /\ ~MsDone(st, R(TolText), MaxIter)
        /\ st' = MsRejected(st, GiveUp) \/ \E x \in Draws : st' = MsUsable(st, R(x))
Spec == Init /\ [][Next]_st
N == Len(st.att)
Loss == [i \in 1..N |-> Rank(st.att[i].loss)]
Usable == {i \in 1..N : Loss[i] # Nan}
Who == IF Usable = {} THEN 0 ELSE
       CHOOSE i \in Usable : \A j \in Usable : Loss[i] < Loss[j] \/ (Loss[i] = Loss[j] /\ i <= j)
BestLoss == IF Usable = {} THEN Nan ELSE Loss[Who]
A == INSTANCE Attempts WITH Max <- MaxIter, Tol <- Rank(R(TolText)), Losses <- 1..Len(Texts), Fallback <- Rank(FALLBACK),
                            n <- N, loss <- Loss, best <- BestLoss, who <- Who
Implements == A!Spec
Safe == A!AtMost /\ A!NeverNan /\ A!Best /\ A!OneOfThem /\ A!StopsAtTheFirst
Agree == BestLoss # Nan => FEq(MsBest(st.att), R(Texts[BestLoss]))
=============================================================================
