------------------------------ MODULE PopFit --------------------------------
(***************************************************************************)
(* The fit of the population model by the script: n steps of Adam.         *)
(*                                                                         *)
(* The points at which the loss is evaluated are numbered in the order of  *)
(* their first visit; codes[p] is what the evaluation of point p gave: a   *)
(* loss (> 0), BADLOSS, or BADGRAD (a loss whose gradient is not finite).  *)
(* The current point is tried at each step.  A point without a loss is     *)
(* replaced, for this step, by the point one step of the latest usable     *)
(* gradient away; if that is not usable either the step is lost.  A bad    *)
(* gradient ends the fit.                                                  *)
(*                                                                         *)
(* Flow: rec = points recorded as usable; acts = the moves in order, each  *)
(* to point pt from point base with the gradient of point g at step i (0,  *)
(* 1, ..); only those which are kept enter the averages of the gradient.   *)
(***************************************************************************)
EXTENDS AdamFit
BADLOSS == 0
BADGRAD == -1
Usable(code) == code > 0
Flow(codes, n) ==
    LET m == Len(codes)
        act(p, b, g, i, k) == [pt |-> p, base |-> b, g |-> g, i |-> i, kept |-> k]
        step(a, k) ==
            LET i == k - 1  c == a.cur IN
            IF a.stop THEN a
            ELSE IF c > m THEN [a EXCEPT !.stop = TRUE, !.short = TRUE]
            ELSE IF Usable(codes[c]) THEN
                [a EXCEPT !.rec = Append(@, c), !.last = c, !.cur = a.new, !.new = @ + 1,
                          !.acts = Append(@, act(a.new, c, c, i, TRUE))]
            ELSE IF codes[c] = BADGRAD THEN [a EXCEPT !.stop = TRUE]
            ELSE LET c2 == a.new  t == Append(a.acts, act(c2, c, a.last, i, FALSE)) IN
                IF c2 > m THEN [a EXCEPT !.stop = TRUE, !.short = TRUE]
                ELSE IF Usable(codes[c2]) THEN
                    [a EXCEPT !.rec = Append(@, c2), !.last = c2, !.cur = c2 + 1, !.new = c2 + 2,
                              !.acts = Append(t, act(c2 + 1, c, c2, i, TRUE))]
                ELSE [a EXCEPT !.new = c2 + 1, !.acts = t]
        r == FoldRange(step, [cur |-> 1, new |-> 2, last |-> 0, rec |-> <<>>, acts |-> <<>>, stop |-> FALSE, short |-> FALSE], 1, n)
    IN r
\* number of points the flow asks for (the last move leads nowhere if no step is left)
Asked(f) == IF f.stop \/ f.cur < f.new - 1 THEN f.new - 1 ELSE f.new - 2
BestOf(rec, codes) == LET better(a, i) == IF codes[rec[i]] < codes[a] THEN rec[i] ELSE a IN FoldRange(better, rec[1], 2, Len(rec))

\* one step of Adam from x with the gradient averages (mv, vv) after gradient g at step i
Avg(b, old, new) == ((FOne (-) b) (.) new) (+) (b (.) old)
Moments(s, g) == LET d == Len(g)
                     mm(j) == Avg(B1, s.m[j], g[j])
                     vv(j) == Avg(B2, s.v[j], g[j] (.) g[j])
                 IN [m |-> Vec(d, mm), v |-> Vec(d, vv)]
StepTo(x, s, i, h) ==
    LET c1 == FOne (-) FPow(B1, FInt(i + 1))
        c2 == FOne (-) FPow(B2, FInt(i + 1))
        y(j) == x[j] (-) ((h (.) (s.m[j] (/) c1)) (/) (FSqrt(s.v[j] (/) c2) (+) R("1e-8")))
    IN Vec(Len(x), y)
=============================================================================
