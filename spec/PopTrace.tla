------------------------------ MODULE PopTrace ------------------------------
(* Clauses on recorded Monte Carlo realizations, shared by C16, C17, C21.   *)
EXTENDS TraceBase, Population
\* single precision: the clipped lines lose up to a few 1e-4
TolU(e) == IF IsX64(e) THEN R("1e-9") ELSE R("3e-3")
TolP(e) == IF IsX64(e) THEN R("1e-9") ELSE R("3e-3")
TolF(e) == IF IsX64(e) THEN R("1e-10") ELSE R("2e-4")
Perm4 == {<<a, b, c, d>> : a, b, c, d \in 1..4}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
MatchU(e, got, want) == Len(got) = 8 /\ VecClose(got, want, TolU(e), TolU(e))
MatchP(e, got, want) == Len(got) = 8 /\ VecClose(got, want, TolP(e), TolP(e))
\* keys which explain each draw
KeysMs(e) == {k \in 1..4 : LET u == DrawMs(e.p, e.h, e.z[k]) IN
                 (Has(e, "u_ms") => MatchU(e, e.u_ms, u)) /\ (Has(e, "p_ms") => MatchP(e, e.p_ms, BoundGal(u)))}
KeysQ(e) == {ab \in (1..4) \X (1..4) : LET u == DrawQ(e.p, e.h, e.z[ab[1]], e.z[ab[2]]) IN
                 (Has(e, "u_q") => MatchU(e, e.u_q, u)) /\ (Has(e, "p_q") => MatchP(e, e.p_q, BoundGal(u)))}
\* the flag which a uniform deviate gives (either one where it is too close)
Coin(e, k, frac) == \/ FAbs(e.r[k] (-) frac) \preceq TolF(e)
                    \/ e.flag = (e.r[k] \prec frac)
=============================================================================
