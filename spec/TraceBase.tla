----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation of recorded calls.  Every line of the trace file is    *)
(* one linearization point of the library: the return (or raise) of one    *)
(* public call with its arguments and results.                             *)
(*                                                                         *)
(* Verdicts are total: `Check(e)` of a trace module is the set of names of *)
(* the clauses of the specification which the recorded step violates; a    *)
(* step which no action of the specification explains has the clause       *)
(* "unexplained", a call which raised where it may not "raised_<type>".    *)
(*                                                                         *)
(* Independent calls are replayed in K interleaved chains, so that TLC's   *)
(* workers share them; modules with state replay their lines in order.     *)
(***************************************************************************)
EXTENDS Flt, TLC, IOUtils, FiniteSets

Trace == LoadTrace(IOEnv.TRACE)
NTrace == Len(Trace)
K == 32

VARIABLE l
TInit == l \in 1..(IF K < NTrace THEN K ELSE NTrace)
TNext == l + K <= NTrace /\ l' = l + K
TSpec == TInit /\ [][TNext]_l

Report(n, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", n, bad>>)

Has(e, f) == f \in DOMAIN e
Raised(e) == {"raised_" \o e.exc}
Cl(name, ok) == IF ok THEN {} ELSE {name}
\* clauses that only make sense if `guard` clauses hold
Then(bad, more) == IF bad = {} THEN more ELSE bad

IsX64(e) == e.mode = "x64"
\* what a constant reads back as in the mode's precision
Prec(e, x) == IF IsX64(e) THEN x ELSE F32(x)
IsVec(v, n) == Len(v) = n /\ \A i \in 1..n : IsFlt(v[i])
AllFin(v) == \A i \in 1..Len(v) : FFin(v[i])
VecClose(v, w, rtol, atol) == \A i \in 1..Len(w) : Close(v[i], w[i], rtol, atol)
VecSame(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(w) : Same(v[i], w[i])
NonDecreasing(v) == \A i \in 1..(Len(v) - 1) : v[i] \preceq v[i + 1]
=============================================================================
