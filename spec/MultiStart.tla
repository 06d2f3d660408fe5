----------------------------- MODULE MultiStart -----------------------------
(***************************************************************************)
(* The restarting minimizer as a transition system.                        *)
(*                                                                         *)
(* One transition is one random draw of a start.  A draw whose gradient    *)
(* has a NaN is rejected; the attempt gives up after GiveUp draws and then *)
(* counts as the initial guess with loss 999.99 and flag -1.  A usable     *)
(* draw is descended from and yields the attempt's loss.                   *)
(*                                                                         *)
(*   st.att    attempts made so far, [loss, flag, who]; who = 0 is the     *)
(*             initial guess, otherwise the number of the draw             *)
(*   st.tries  rejected draws of the running attempt                       *)
(*   st.n      draws so far                                                *)
(***************************************************************************)
EXTENDS Flt

FALLBACK == R("999.99")
MsInit == [att |-> <<>>, tries |-> 0, n |-> 0]

MsBest(att) ==    \* smallest loss which is not NaN (inf if there is none)
    LET m(a, i) == IF FNaN(att[i].loss) THEN a ELSE FMin(a, att[i].loss)
    IN FoldRange(m, R("inf"), 1, Len(att))
MsDone(st, tol, maxiter) == Len(st.att) >= maxiter \/ MsBest(st.att) \preceq tol
MsRejected(st, giveup) ==
    IF st.tries + 1 < giveup THEN [st EXCEPT !.tries = @ + 1, !.n = @ + 1]
    ELSE [att |-> Append(st.att, [loss |-> FALLBACK, flag |-> -1, who |-> 0]), tries |-> 0, n |-> st.n + 1]
MsUsable(st, loss) ==
    [att |-> Append(st.att, [loss |-> loss, flag |-> 1, who |-> st.n + 1]), tries |-> 0, n |-> st.n + 1]

\* results which the attempts allow (ties may go either way)
MsAllNaN(att) == \A i \in 1..Len(att) : FNaN(att[i].loss)
MsResultOk(att, res) ==
    IF MsAllNaN(att) THEN res.flag = -1 /\ res.who = 0 /\ FEq(res.loss, FALLBACK)
    ELSE \E i \in 1..Len(att) : /\ FEq(att[i].loss, MsBest(att)) /\ FEq(res.loss, att[i].loss)
                                /\ res.flag = att[i].flag /\ res.who = att[i].who
=============================================================================
