-------------------------------- MODULE Dual --------------------------------
(***************************************************************************)
(* Forward-mode derivative semantics of the galaxy model: every quantity   *)
(* is a pair <<value, derivative>>.  Only the branch which is taken        *)
(* contributes, as in the model itself.                                    *)
(***************************************************************************)
EXTENDS Histories

DC(x) == <<x, FZero>>
DAdd(a, b) == <<a[1] (+) b[1], a[2] (+) b[2]>>
DSub(a, b) == <<a[1] (-) b[1], a[2] (-) b[2]>>
DMul(a, b) == <<a[1] (.) b[1], (a[1] (.) b[2]) (+) (a[2] (.) b[1])>>
DDiv(a, b) == LET q == a[1] (/) b[1] IN <<q, (a[2] (-) (q (.) b[2])) (/) b[1]>>
Ln10 == FLn(R("10.0"))
DPow10(a) == LET v == FPow10(a[1]) IN <<v, (Ln10 (.) v) (.) a[2]>>
DLog10(a) == <<FLog10(a[1]), a[2] (/) (a[1] (.) Ln10)>>
DLogistic(a) == LET s == Logistic(a[1]) IN <<s, ((s (.) (FOne (-) s)) (.) a[2])>>
DSigmoid(x, x0, k, lo, hi) == DAdd(lo, DMul(DSub(hi, lo), DLogistic(DMul(k, DSub(x, x0)))))
\* the triweight density is the slope of its CDF
TwPdf(y) == IF y \prec R("-3.0") \/ R("3.0") \prec y THEN FZero
            ELSE LET z == FOne (-) ((y (.) y) (/) R("9.0")) IN (R("35.0") (/) R("96.0")) (.) ((z (.) z) (.) z)
DTwCdf(a) == <<TwCdf(a[1]), IF FEq(TwPdf(a[1]), FZero) THEN FZero ELSE TwPdf(a[1]) (.) a[2]>>

DLogMah(mah, t, lgt0) ==
    LET lgt == IF t[1] \prec mah[5][1] THEN DLog10(t) ELSE DLog10(mah[5])
        idx == DSigmoid(lgt, mah[2], DC(MAH_K), mah[3], mah[4])
    IN DAdd(DMul(idx, DSub(lgt, lgt0)), mah[1])
DLogEff(lgm, gal) ==
    LET slope == DSigmoid(lgm, gal[1], DC(INDX_K), gal[3], gal[4])
    IN DAdd(gal[2], DMul(slope, DSub(lgm, gal[1])))
DLogQuench(lgt, lgqt, dt, drop, rejuv) ==
    LET y == DDiv(DSub(lgt, lgqt), DDiv(dt, DC(R("12.0"))))
    IN IF y[1] \prec FZero THEN DMul(drop, DTwCdf(DAdd(y, DC(R("3.0")))))
       ELSE DSub(drop, DMul(DSub(drop, rejuv), DTwCdf(DSub(y, DC(R("3.0"))))))
DSfr(gal, mah, t, lgt0, fb) ==
    LET lgm == DLogMah(mah, t, lgt0)
        ms == DMul(DMul(fb, DPow10(lgm)), DPow10(DLogEff(lgm, gal)))
        s == DMul(ms, DPow10(DLogQuench(DLog10(t), gal[5], DPow10(gal[6]), gal[7], gal[8])))
    IN IF s[1] \prec SFR_MIN THEN DC(SFR_MIN) ELSE s
\* the integral is linear in the rates
DCumMass(ts, ds) ==
    LET vals(i) == ds[i][1]
        slopes(i) == ds[i][2]
        v == CumMass(ts, Vec(Len(ts), vals))
        d == LET step(a, i) ==
                     LET acc == a.acc (+) (((ts[i] (-) a.t) (.) (slopes(i) (+) a.f)) (/) FTwo)
                     IN [t |-> ts[i], f |-> slopes(i), acc |-> acc, out |-> Append(a.out, acc (.) YR_PER_GYR)]
             IN FoldRange(step, [t |-> T_BIRTH, f |-> FZero, acc |-> FZero, out |-> <<>>], 1, Len(ts)).out
        f(i) == <<v[i], d[i]>>
    IN Vec(Len(ts), f)
\* parameters 1..8 of the galaxy and 9..13 of its halo, seeded in the k-th
DSeedGal(gal, k) == [i \in 1..8 |-> <<gal[i], IF i = k THEN FOne ELSE FZero>>]
DSeedMah(mah, k) == [i \in 1..5 |-> <<mah[i], IF i + 8 = k THEN FOne ELSE FZero>>]
=============================================================================
