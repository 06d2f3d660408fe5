------------------------------- MODULE MC_C25 -------------------------------
(***************************************************************************)
(* Time walks outward from the start of the quenching event of a galaxy.   *)
(* At every step the derivative semantics of the model (Dual) is the limit *)
(* of the finite differences of the model itself (Deriv), with respect to  *)
(* each of the 13 parameters, in every phase of the history.               *)
(***************************************************************************)
EXTENDS Dual, Deriv, TLC
CONSTANTS Ks
VARIABLES g, m, k, i, ph
vars == <<g, m, k, i, ph>>
Gals == <<GalDefault,
  <<R("11.0"), R("-9.5"), R("4.0"), R("-4.0"), R("0.5"), R("-1.0"), R("-2.9"), R("-0.1")>>,
  <<R("12.5"), R("-10.5"), R("2.0"), R("-2.0"), R("0.9"), R("-0.3"), R("-0.5"), R("-0.4")>>,
  <<R("9.2"), R("-11.9"), R("4.9"), R("-4.9"), R("0.3"), R("-2.9"), R("-2.9"), R("-2.8")>>,
  <<R("12.0"), R("-9.0"), R("0.5"), R("-0.5"), R("1.1"), R("-2.0"), R("-2.0"), R("-0.01")>>>>
Mahs == <<
  <<R("12.0"), R("0.05"), R("2.6"), R("0.14"), R("14.0")>>,
  <<R("15.0"), R("0.6"), R("6.0"), R("1.0"), R("13.8")>>,
  <<R("10.0"), R("-0.3"), R("1.0"), R("0.0"), R("5.0")>>,
  <<R("13.0"), R("0.3"), R("3.0"), R("0.5"), R("2.1")>>>>
L0 == R("1.1398790864012365")
FB == R("0.156")
\* times as offsets from the centre of the event, in units of its twelfth part
Offs == <<R("-36000.0"), R("-700.0"), R("-60.0"), R("-7.0"), R("-5.5"), R("-3.1"), R("-1.7"), R("-0.3"),
          R("0.4"), R("2.3"), R("4.9"), R("7.5"), R("40.0"), R("900.0"), R("20000.0")>>
TimeOf(gi, oi) == FPow10(FClip(Gals[gi][5] (+) (Offs[oi] (.) (FPow10(Gals[gi][6]) (/) R("12.0"))), R("-1.5"), R("1.2")))
T == TimeOf(g, i)
Phase(gal, mah, t) ==
    IF RawSfr(gal, mah, t, L0, FB) \preceq SFR_MIN THEN "floor"
    ELSE IF mah[5] \prec t THEN "peaked"
    ELSE LET x == FLog10(t) IN
         IF x \prec QuenchStart(gal) THEN "before"
         ELSE IF x \prec gal[5] THEN "drop"
         ELSE IF x \prec QuenchEnd(gal) THEN "rise" ELSE "after"
Init == g \in 1..Len(Gals) /\ m \in 1..Len(Mahs) /\ k \in Ks /\ i = 1 /\ ph = Phase(Gals[g], Mahs[m], TimeOf(g, 1))
Walk == i < Len(Offs) /\ i' = i + 1 /\ UNCHANGED <<g, m, k>> /\ ph' = Phase(Gals[g], Mahs[m], TimeOf(g, i + 1))
        /\ (k = 1 => PrintT(<<"SCEN", ph', g, m>>))
Spec == Init /\ [][Walk]_vars
\* a step which resolves the feature the parameter controls
Step(gi, kk) == IF kk \in {5, 6} THEN R("0.01") (.) FMin(FOne, FPow10(Gals[gi][6])) ELSE R("0.004")
Bump(v, j, d) == [v EXCEPT ![j] = @ (+) d]
At(d) == IF k <= 8 THEN Sfr(Bump(Gals[g], k, d), Mahs[m], T, L0, FB)
         ELSE Sfr(Gals[g], Bump(Mahs[m], k - 8, d), T, L0, FB)
H == Step(g, k)
Samp == <<At(FNeg(H)), At(FNeg(Half(H))), At(FNeg(Quarter(H))), At(FZero), At(Quarter(H)), At(Half(H)), At(H)>>
Noise == (R("1e-14") (/) FMin(FOne, FPow10(Gals[g][6]))) (.) FAbs(At(FZero))
D == DSfr(DSeedGal(Gals[g], k), DSeedMah(Mahs[m], k), DC(T), DC(L0), DC(FB))
Kinked == Same(T, Mahs[m][5])
ValueAgrees == Close(D[1], At(FZero), R("1e-12"), FZero)
Finite == FFin(D[2])
IsLimit == Kinked \/ IsSlope(D[2], Samp, H, Noise, R("1e-6"))
\* a derivative that is cut off is noticed wherever the value moves
CutNoticed == Changes(Samp, H, Noise) => ~IsSlope(FZero, Samp, H, Noise, R("1e-6"))
\* so is one of the wrong sign or off by 10%
WrongNoticed == Smooth(Samp, H, Noise) /\ (R("50.0") (.) SlopeTol(Samp, H, Noise)) \prec FAbs(D[2]) =>
                   ~IsSlope(FNeg(D[2]), Samp, H, Noise, R("1e-6")) /\ ~IsSlope(R("1.1") (.) D[2], Samp, H, Noise, R("1e-6"))
\* after the peak the halo's growth is over: only its mass at the peak counts
FlooredFlat == ph = "floor" => FEq(D[2], FZero)
\* outside of the event its timing is irrelevant
Timing == (ph \in {"before", "after"} /\ k \in {5, 6}) => FEq(D[2], FZero)
=============================================================================
