----------------------------- MODULE Trace_C26 -----------------------------
(* The recorded calls of all processes as one session.  `memo` holds, for   *)
(* every identity of a call, the line of the trace which answered it first. *)
EXTENDS TraceBase, Session
VARIABLES memo
SInit == l = 1 /\ memo = <<>>
\* within one process an answer is repeated to the last bit; between
\* processes, and for other forms of equal arguments, up to rounding
Exact(e) == <<"in", e.proc, e.key>>
Loose(e) == <<"any", e.mode, e.ckey>>
Step(m, n) == IF Trace[n].op # "call" THEN m ELSE Learn(Learn(m, Exact(Trace[n]), n), Loose(Trace[n]), n)
SNext == l < NTrace /\ l' = l + 1 /\ memo' = Step(memo, l)
SSpec == SInit /\ [][SNext]_<<l, memo>>

Rtol(e) == IF IsX64(e) THEN R("1e-9") ELSE R("2e-4")
ValClose(e, f) ==
    LET big == FMaxRange(LAMBDA i : IF FFin(f.val[i]) THEN FAbs(f.val[i]) ELSE FZero, 1, Len(f.val)) IN
    Len(e.val) = Len(f.val) /\ \A i \in 1..Len(f.val) : Close(e.val[i], f.val[i], Rtol(e), (Rtol(e) (.) R("1e-3")) (.) big)
Agrees(e, f) == (Has(e, "err") <=> Has(f, "err")) /\ (IF Has(e, "err") THEN Has(f, "err") => e.err = f.err ELSE (Has(e, "val") /\ Has(f, "val")) => ValClose(e, f))
CallOk(e) ==
    Cl("arguments_untouched", e.pre = e.post)
    \cup Cl("defaults_untouched", e.defaults)
    \cup Cl("settings_untouched", e.settings)
    \cup Cl("random_state_untouched", e.draws \/ e.rng)
    \cup Cl("raised_" \o (IF Has(e, "err") THEN e.err ELSE ""), e.may_raise \/ ~Has(e, "err"))
    \cup Cl("refused", e.may_raise => Has(e, "err"))
    \cup Cl("same_answer_again", Knows(memo, Exact(e)) => Trace[memo[Exact(e)]].answer = e.answer)
    \cup Cl("same_answer_for_equal_inputs", Knows(memo, Loose(e)) => Agrees(e, Trace[memo[Loose(e)]]))
Check(e) ==
    IF e.op = "call" THEN CallOk(e)
    ELSE IF Has(e, "exc") THEN Raised(e) ELSE {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
