----------------------------- MODULE Trace_C17 -----------------------------
EXTENDS PopTrace
SlackP(e) == IF IsX64(e) THEN R("1e-12") ELSE R("2e-5")
Real(e) ==
    LET want == QuenchProb(e.p, e.h) IN
    Cl("probability_range", FZero \preceq e.frac /\ e.frac \preceq FOne)
    \cup Cl("probability", Close(e.frac, want, FZero, TolF(e)))
    \cup Cl("flag", \E k \in 1..4 : Coin(e, k, e.frac))
    \cup Cl("bounds_ms", AllFin(e.p_ms) /\ GalInBoundsTol(e.p_ms, SlackP(e)))
    \cup Cl("bounds_q", AllFin(e.p_q) /\ GalInBoundsTol(e.p_q, SlackP(e)))
    \cup Cl("unquenched", R("1.47") \prec QuenchStart(e.p_ms))
\* flags of one galaxy with many keys against its own probability
Coins(e) ==
    LET n == Len(e.flags) IN
    Then(Cl("same_probability", \A i \in 1..n : Close(e.fracs[i], e.fracs[1], R("1e-6"), R("1e-6"))),
         Cl("flag_is_coin", \E k \in 1..4 : \A i \in 1..n :
               FAbs(e.r[i][k] (-) e.fracs[i]) \preceq TolF(e) \/ e.flags[i] = (e.r[i][k] \prec e.fracs[i])))
\* infall information of a central; host id of a satellite
SameOutcome(e) == Cl(e.what, e.a = e.b)
Sfh(e) ==
    LET want == MainSeqSfh(e.p_ms, e.mah, e.ts, e.lgt0, e.fb) IN
    Cl("unquenched_history", Len(e.sfh_ms) = Len(e.ts) /\ VecClose(e.sfh_ms, want, IF IsX64(e) THEN R("1e-8") ELSE R("5e-3"), FZero))
Check(e) ==
    IF Has(e, "exc") THEN Raised(e)
    ELSE CASE e.op = "real" -> Real(e)
           [] e.op = "coins" -> Coins(e)
           [] e.op = "same" -> SameOutcome(e)
           [] e.op = "sfh" -> Sfh(e)
           [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
