------------------------------- MODULE MC_C03 -------------------------------
(***************************************************************************)
(* The quenching event as a walk through cosmic time: lgt advances over a  *)
(* grid that is aligned with the event; the phase machine                  *)
(*      before -> dropping -> rising -> settled                            *)
(* is checked against the factor at every step.                            *)
(***************************************************************************)
EXTENDS Galaxy, TLC

VARIABLES q, step, phase, val
vars == <<q, step, phase, val>>

Qts == {R("0.1"), R("0.55"), R("1.0"), R("2.0")}
Dts == {R("-3.0"), R("-1.5"), R("-0.5"), R("-0.01")}
Drops == {R("-3.0"), R("-1.0"), R("-0.01"), R("0.0")}
Rejs == {R("0.0"), FHalf, R("0.999"), FOne}     \* fraction of the way from drop to 0
N == 24          \* steps per event; the walk starts and ends half an event outside
Gal(qt, d, dr, r) == [qt |-> qt, w |-> FPow10(d), drop |-> dr, rej |-> dr (.) (FOne (-) r)]
Lgt(gg, k) == gg.qt (+) (gg.w (.) ((FInt(k) (/) FInt(N)) (-) FOne))
PhaseAt(k) == IF k <= N \div 2 THEN "before" ELSE IF k <= N THEN "dropping"
              ELSE IF k <= (3 * N) \div 2 THEN "rising" ELSE "settled"
F(gg, k) == Quench(Lgt(gg, k), gg.qt, gg.w, gg.drop, gg.rej)
Last == 2 * N

Init == /\ \E qt \in Qts, d \in Dts, dr \in Drops, r \in Rejs :
              q = Gal(qt, d, dr, r) /\ PrintT(<<"SCEN", FStr(qt), FStr(d), FStr(dr), FStr(r)>>)
        /\ step = 0 /\ phase = "before" /\ val = F(q, 0)
Next == /\ step < Last
        /\ step' = step + 1 /\ phase' = PhaseAt(step') /\ val' = F(q, step')
        /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

E == R("1e-9")
Range == FZero \prec val /\ val \preceq (FOne (+) E)
BeforeIsOne == phase = "before" => Close(val, FOne, E, E)
Deepest == step = N => Close(val, FPow10(q.drop), E, FZero)
Settled == step >= (3 * N) \div 2 => Close(val, FPow10(q.rej), E, FZero)
\* drop phase and rise phase have the same shape, mirrored
Symmetric == step <= N =>
    LET a == LogQuench(Lgt(q, step), q.qt, q.w, q.drop, q.rej)
        b == LogQuench(Lgt(q, Last - step), q.qt, q.w, q.drop, q.rej)
    IN Close(a (.) (q.drop (-) q.rej), (b (-) q.rej) (.) q.drop, R("1e-7"), R("1e-9"))
\* monotone within each phase
Monotone == [][ /\ (step' <= N => val' \preceq (val (.) (FOne (+) E)))
                /\ (step >= N => val \preceq (val' (.) (FOne (+) E))) ]_vars
PhaseStep == <<phase, phase'>> \in {<<"before","before">>, <<"before","dropping">>, <<"dropping","dropping">>,
    <<"dropping","rising">>, <<"rising","rising">>, <<"rising","settled">>, <<"settled","settled">>}
PhaseOrder == [][PhaseStep]_vars
=============================================================================
