------------------------------- MODULE MC_C11 -------------------------------
(* The objective around data made by a model galaxy: moves of one          *)
(* parameter at a time through the lattice.                                *)
EXTENDS FitTargets, TLC
CONSTANTS Depth
VARIABLES x, n, o
vars == <<x, n, o>>
Ts == <<R("0.5"), R("1.5"), R("2.5"), R("4.0"), R("7.0"), R("10.0"), R("13.5")>>
Mah == <<R("12.2"), R("0.05"), R("2.6"), R("0.14"), R("14.0")>>
Truth == <<R("11.8"), R("-9.8"), R("1.5"), R("-1.0"), R("0.9"), R("-0.4"), R("-1.2"), R("-0.3")>>
Step == <<R("0.2"), R("0.3"), R("0.5"), R("0.5"), R("0.25"), R("0.1"), R("0.4"), R("0.1")>>
Opts == <<DefaultOpt, [DefaultOpt EXCEPT !.delay = R("0.5"), !.dlogm = R("1.0"), !.floor = R("1e-10")]>>
LGT0 == R("1.13987909")
FB_ == R("0.156")
T(op) == Targets(Ts, SfhTable(Truth, Mah, Ts, LGT0, FB_), op)
Gal == LET f(i) == Truth[i] (+) (FInt(x[i]) (.) Step[i]) IN Vec(8, f)
Init == x = [i \in 1..8 |-> 0] /\ n = 0 /\ o \in 1..2
Move == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED o
        /\ \E i \in 1..8, d \in {-1, 1} : x' = [x EXCEPT ![i] = @ + d]
        /\ PrintT(<<"SCEN", o>> \o x')
Spec == Init /\ [][Move]_vars
TT == Terms(Gal, Mah, Ts, T(Opts[o]), Opts[o], LGT0, FB_)
TermsNonNegative == \A f \in DOMAIN TT : FZero \preceq TT[f]
AtTruth == x = [i \in 1..8 |-> 0] => FEq(TT.mass, FZero) /\ (o = 1 => FEq(TT.final, FZero)) /\ TT.resid \preceq R("1e-20")
PenaltyRange == FZero \preceq TT.penalty /\ TT.penalty \preceq R("100.0")
PenaltySide == LET d == Gal[5] (-) T(Opts[o]).lgtmax IN
    /\ R("0.2") \prec d => TT.penalty \preceq R("0.01")
    /\ d \prec R("-0.2") => R("99.99") \preceq TT.penalty
\* data identical to the model except in ignored snapshots give the same loss
Ignored == LET t == T(Opts[o])
               bump(i) == IF t.w[i] = IGNORED THEN t.lm[i] (+) FOne ELSE t.lm[i]
               u == [t EXCEPT !.lm = Vec(Len(Ts), bump)]
           IN Close(Total(Terms(Gal, Mah, Ts, u, Opts[o], LGT0, FB_)), Total(TT), R("1e-9"), R("1e-15"))
ResidBounded == TT.resid \preceq R("4.0")
=============================================================================
