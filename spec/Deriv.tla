------------------------------- MODULE Deriv --------------------------------
(***************************************************************************)
(* What a derivative is, in terms of values of a function f alone: the     *)
(* limit of the finite differences of its returned values.                 *)
(*                                                                         *)
(* A sample s is <<f(x-h), f(x-h/2), f(x-h/4), f(x), f(x+h/4), f(x+h/2),   *)
(* f(x+h)>>; `noise` bounds the rounding error of a value.                 *)
(***************************************************************************)
EXTENDS Flt

Central(hi, lo, h) == (hi (-) lo) (/) (FTwo (.) h)
Richardson(coarse, fine) == ((R("4.0") (.) fine) (-) coarse) (/) R("3.0")
Half(h) == h (/) FTwo
Quarter(h) == h (/) R("4.0")
D1(s, h) == Central(s[7], s[1], h)
D2(s, h) == Central(s[6], s[2], Half(h))
D3(s, h) == Central(s[5], s[3], Quarter(h))
\* two extrapolations; their difference estimates the truncation error
CoarseSlope(s, h) == Richardson(D1(s, h), D2(s, h))
Slope(s, h) == Richardson(D2(s, h), D3(s, h))
\* jump of the one-sided slopes: proportional to the step for a smooth f
Jump2(s, h) == FAbs(((s[6] (-) s[4]) (-) (s[4] (-) s[2])) (/) Half(h))
Jump3(s, h) == FAbs(((s[5] (-) s[4]) (-) (s[4] (-) s[3])) (/) Quarter(h))
RoundErr(noise, h) == (R("16.0") (.) noise) (/) Quarter(h)
Smooth(s, h, noise) == FAbs((FTwo (.) Jump3(s, h)) (-) Jump2(s, h)) \preceq ((R("0.25") (.) Jump2(s, h)) (+) RoundErr(noise, h))
SlopeTol(s, h, noise) ==
    (RoundErr(noise, h) (+) (R("4.0") (.) FAbs(Slope(s, h) (-) CoarseSlope(s, h))))
    (+) (IF Smooth(s, h, noise) THEN FZero ELSE FMax(Jump2(s, h), Jump3(s, h)))
IsSlope(g, s, h, noise, rtol) ==
    FFin(g) /\ FAbs(g (-) Slope(s, h)) \preceq (SlopeTol(s, h, noise) (+) (rtol (.) FAbs(Slope(s, h))))
\* the sample shows that f depends on x
Changes(s, h, noise) == (R("4.0") (.) SlopeTol(s, h, noise)) \prec FAbs(Slope(s, h))
=============================================================================
