----------------------------- MODULE Trace_C08 -----------------------------
(* Recorded runs of the restarting minimizer.  An event holds the draws    *)
(* the code made, in order: e.nan[i] is whether the gradient there has a   *)
(* NaN and e.loss[i] the loss descended to from there.                     *)
EXTENDS TraceBase, MultiStart
GIVEUP == 1001
\* consume draws; a draw made after the machine is done is an extra one
Run(e) ==
    LET step(a, i) ==
            IF MsDone(a.st, e.tol, e.max_iter) THEN [a EXCEPT !.extra = TRUE]
            ELSE [a EXCEPT !.st = IF e.nan[i] THEN MsRejected(a.st, GIVEUP) ELSE MsUsable(a.st, e.loss[i])]
    IN FoldRange(step, [st |-> MsInit, extra |-> FALSE], 1, Len(e.nan))
\* the starts are drawn around the guess with the given scatter: none is
\* eight standard deviations off, and many have that mean and variance
Starts(e) ==
    LET d == R("7.0") (/) FSqrt(FInt(e.ndraw)) w == FTwo (.) d IN
    Cl("starts_around_guess", e.far \preceq R("8.0"))
    \cup Cl("starts_scatter", e.ndraw < 400 \/ \A i \in 1..Len(e.mean) :
          /\ FAbs(e.mean[i]) \preceq d
          /\ (FOne (-) w) \preceq e.var[i] /\ e.var[i] \preceq (FOne (+) w))
Wrapper(e) ==
    LET r == Run(e) IN
    Starts(e) \cup
    Cl("continued_after_done", ~r.extra)
    \cup Then(Cl("stopped_too_early", r.extra \/ MsDone(r.st, e.tol, e.max_iter)),
              IF r.extra THEN {} ELSE
              Cl("result", e.res_who # -1 /\ MsResultOk(r.st.att, [loss |-> e.res_loss, flag |-> e.res_flag, who |-> e.res_who])))
\* a run of a smooth loss: only what is observable from outside
Smooth(e) ==
    Cl("same_attempt", FEq(e.res_loss, e.loss_at_p))
    \cup Cl("flag", e.res_flag = 1)
    \cup Cl("best", \A i \in 1..Len(e.start_loss) : e.res_loss \preceq e.start_loss[i])
Draw(e) ==
    LET n == Len(e.nan) IN
    Starts(e) \cup
    Cl("draws", \/ n >= 1 /\ n <= GIVEUP /\ ~e.nan[n] /\ \A i \in 1..(n-1) : e.nan[i]
                \/ n = GIVEUP /\ \A i \in 1..n : e.nan[i])
    \cup Cl("point", e.res_who = n)
    \cup Cl("flag", n >= 1 => e.isnan = e.nan[n])
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "wrapper" -> Wrapper(e)
           [] e.op = "smooth" -> Smooth(e)
           [] e.op = "pinit" -> Draw(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
