------------------------------ MODULE AdamFit -------------------------------
(***************************************************************************)
(* The Adam minimizer, its warm-ups, and the combined minimizer.           *)
(*                                                                         *)
(* A run evaluates the loss at its start and after each update, n points   *)
(* at most, and ends early at the first point where parameters, loss or    *)
(* gradient are not finite.                                                *)
(*                                                                         *)
(* Two landscapes: on the `ladder' the gradient is one everywhere, so that *)
(* Adam descends one rung (step_size) per update, and a run is a walk over *)
(* integers through a table of losses; the `bowl' is the real Adam rule on *)
(* a separable quadratic with a wall.                                      *)
(***************************************************************************)
EXTENDS Flt
ADAM_FALLBACK == R("999.99")
BADCELL == 0        \* table value of a rung where something is not finite

\* walk from rung `pos` (rungs count downwards from 0), `stride` rungs per
\* update, n points; table[rung + 1] is the loss code.  Result: the rungs
\* visited in order, and how the run ended.
Walk(table, pos, stride, n) ==
    LET step(a, i) == IF a.bad THEN a
                      ELSE IF table[a.pos + 1] = BADCELL THEN [a EXCEPT !.bad = TRUE]
                      ELSE [a EXCEPT !.seen = Append(@, a.pos), !.pos = @ + stride]
    IN FoldRange(step, [pos |-> pos, seen |-> <<>>, bad |-> FALSE], 1, n)
\* first rung with the smallest loss (the start if no rung was recorded)
BestRung(table, w, start) ==
    LET better(a, i) == IF a = -1 THEN w.seen[i]
                        ELSE IF table[w.seen[i] + 1] < table[a + 1] THEN w.seen[i] ELSE a
        b == FoldRange(better, -1, 1, Len(w.seen))
    IN IF b = -1 THEN start ELSE b
Warmup(table, start, stride, nwarm, nstep) ==
    LET w(a, i) == BestRung(table, Walk(table, a, stride, nstep), a)
    IN FoldRange(w, start, 1, nwarm)
\* the whole of it: [seen, best, completed]
AdamLadder(table, start, nwarm, wstride, wn, n) ==
    LET s0 == Warmup(table, start, wstride, nwarm, wn)
        w == Walk(table, s0, 1, n)
    IN [start |-> s0, seen |-> w.seen, best |-> BestRung(table, w, s0), completed |-> ~w.bad]

----------------------------------------------------------------------------
\* bowl: loss sum c_i (x_i - a_i)^2, not finite where x_1 < wall
BowlLoss(b, x) == LET f(i) == b.c[i] (.) ((x[i] (-) b.a[i]) (.) (x[i] (-) b.a[i])) IN FSumRange(f, 1, Len(x))
BowlBad(b, x) == x[1] \prec b.wall \/ \E i \in 1..Len(x) : ~FFin(x[i])
B1 == R("0.9")
B2 == R("0.999")
AdamUpdate(b, s, k, h) ==    \* k = 0, 1, ...
    LET d == Len(s.x)
        g(i) == (FTwo (.) b.c[i]) (.) (s.x[i] (-) b.a[i])
        gv == Vec(d, g)
        m(i) == ((FOne (-) B1) (.) gv[i]) (+) (B1 (.) s.m[i])
        v(i) == ((FOne (-) B2) (.) (gv[i] (.) gv[i])) (+) (B2 (.) s.v[i])
        mv == Vec(d, m)  vv == Vec(d, v)
        c1 == FOne (-) FPow(B1, FInt(k + 1))
        c2 == FOne (-) FPow(B2, FInt(k + 1))
        x(i) == s.x[i] (-) ((h (.) (mv[i] (/) c1)) (/) (FSqrt(vv[i] (/) c2) (+) R("1e-8")))
    IN [x |-> Vec(d, x), m |-> mv, v |-> vv]
BowlRun(b, x0, h, n) ==
    LET d == Len(x0)
        zero(i) == FZero
        step(a, k) ==
            IF a.bad THEN a
            ELSE IF BowlBad(b, a.s.x) THEN [a EXCEPT !.bad = TRUE]
            ELSE [s |-> AdamUpdate(b, a.s, k - 1, h), seen |-> Append(a.seen, a.s.x), bad |-> FALSE]
    IN FoldRange(step, [s |-> [x |-> x0, m |-> Vec(d, zero), v |-> Vec(d, zero)], seen |-> <<>>, bad |-> FALSE], 1, n)
BowlBest(b, r, x0) ==
    LET n == Len(r.seen)
        better(a, i) == IF a = 0 \/ BowlLoss(b, r.seen[i]) \prec BowlLoss(b, r.seen[a]) THEN i ELSE a
        k == FoldRange(better, 0, 1, n)
    IN IF k = 0 THEN x0 ELSE r.seen[k]
BowlAdam(b, x0, nwarm, wh, wn, h, n) ==
    LET w(a, i) == BowlBest(b, BowlRun(b, a, wh, wn), a)
        ws == FoldRange(w, x0, 1, nwarm)
        s0 == IF \A i \in 1..Len(ws) : FFin(ws[i]) THEN ws ELSE x0
        r == BowlRun(b, s0, h, n)
    IN [seen |-> r.seen, best |-> BowlBest(b, r, s0), completed |-> ~r.bad]
=============================================================================
