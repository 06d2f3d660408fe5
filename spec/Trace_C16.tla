----------------------------- MODULE Trace_C16 -----------------------------
EXTENDS PopTrace
\* one galaxy: draws explained by the deviates of four different keys
Real(e) ==
    LET km == KeysMs(e)  kq == KeysQ(e) IN
    Then(Cl("main_sequence_draw", km # {}) \cup Cl("quenched_sequence_draws", kq # {}),
    Then(Cl("keys_reused", \E a \in km, bc \in kq : Distinct(<<a, bc[1], bc[2]>>)),
         Cl("coin_key", \E a \in km, bc \in kq : Distinct(<<a, bc[1], bc[2]>>)
              /\ LET d == CHOOSE x \in 1..4 : Distinct(<<a, bc[1], bc[2], x>>) IN Coin(e, d, e.frac))))
\* rows of the population against single realizations with the split keys
RowClose(e, a, b) == Len(a) = Len(b) /\ VecClose(a, b, TolU(e), TolU(e))
Pop(e) ==
    LET n == Len(e.single) IN
    Then(Cl("rows", Len(e.rows) = n),
         Cl("row_is_single", \A i \in 1..n : RowClose(e, e.rows[i].ms, e.single[i].ms) /\ RowClose(e, e.rows[i].q, e.single[i].q)
                /\ Close(e.rows[i].frac, e.single[i].frac, TolF(e), TolF(e)))
         \cup Cl("flag_is_single", \A i \in 1..n : e.rows[i].flag = e.single[i].flag \/ FAbs(e.rows[i].frac (-) e.single[i].frac) # FZero))
\* two runs with equal inputs
Again(e) == Cl("reproducible", e.a = e.b)
\* two runs in which galaxy `who` (0: none) has other inputs
Local(e) ==
    LET n == Len(e.a) IN
    Cl("others_changed", Len(e.b) = n /\ \A i \in 1..n : i # e.who => e.a[i] = e.b[i])
\* draws under another key
Other(e) == Cl("key_ignored", \A i \in 1..Len(e.a) : e.a[i].ms # e.b[i].ms /\ e.a[i].q # e.b[i].q)
            \cup Cl("galaxies_share_draws", \A i, j \in 1..Len(e.a) : i # j => e.dev[i] # e.dev[j])
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "real" -> Real(e)
           [] e.op = "pop" -> Pop(e)
           [] e.op = "again" -> Again(e)
           [] e.op = "local" -> Local(e)
           [] e.op = "other_key" -> Other(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
