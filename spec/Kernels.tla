------------------------------ MODULE Kernels ------------------------------
(* Scalar building blocks shared by every part of diffstar.               *)
EXTENDS Flt

Logistic(x) == FOne (/) (FOne (+) FExp(FNeg(x)))

\* smooth step from ymin (x -> -inf) to ymax (x -> +inf), midpoint x0, speed k
Sigmoid(x, x0, k, ymin, ymax) ==
    ymin (+) ((ymax (-) ymin) (.) Logistic(k (.) (x (-) x0)))

InvSigmoid(y, x0, k, ymin, ymax) ==
    x0 (-) (FLn(((ymax (-) ymin) (/) (y (-) ymin)) (-) FOne) (/) k)

SigmoidPoly(x, x0, k, ymin, ymax) ==
    LET arg == k (.) (x (-) x0)
        body == ((FHalf (.) arg) (/) FSqrt(FOne (+) (arg (.) arg))) (+) FHalf
    IN ymin (+) ((ymax (-) ymin) (.) body)

\* Sigmoid bounding used for galaxy parameters: centre at the middle of the
\* interval and unit slope there (k = 4/width).
Bounded(u, lo, hi) == Sigmoid(u, FHalf (.) (lo (+) hi), R("4.0") (/) (hi (-) lo), lo, hi)
Unbounded(p, lo, hi) == InvSigmoid(p, FHalf (.) (lo (+) hi), R("4.0") (/) (hi (-) lo), lo, hi)

\* Sigmoid bounding used for population parameters: fixed speed 0.1
PopBounded(u, lo, hi) == Sigmoid(u, FHalf (.) (lo (+) hi), R("0.1"), lo, hi)
PopUnbounded(p, lo, hi) == InvSigmoid(p, FHalf (.) (lo (+) hi), R("0.1"), lo, hi)

\* CDF of the triweight kernel with support [-3, 3]
TwCdf(y) ==
    IF y \prec R("-3.0") THEN FZero
    ELSE IF R("3.0") \prec y THEN FOne
    ELSE IF FNaN(y) THEN y
    ELSE LET y2 == y (.) y  y3 == y2 (.) y  y5 == y3 (.) y2  y7 == y5 (.) y2 IN
         ((((R("-5.0") (.) y7) (/) R("69984.0")) (+) ((R("7.0") (.) y5) (/) R("2592.0")))
           (-) ((R("35.0") (.) y3) (/) R("864.0"))) (+) (((R("35.0") (.) y) (/) R("96.0")) (+) FHalf)

TwCdfAt(x, m, h) == TwCdf((x (-) m) (/) h)
\* kernel mass of a point at x with scatter h inside the bin [lo, hi]
TwBinWeight(x, h, lo, hi) == TwCdf((x (-) lo) (/) h) (-) TwCdf((x (-) hi) (/) h)
TwBin(m, h, L, H) == TwCdfAt(H, m, h) (-) TwCdfAt(L, m, h)

\* Straight line y0 + m (x - x0), smoothly clipped to [ylo, yhi]: the clip
\* switches over 1% of the way from each bound to y0, at a speed of 20 per that
\* interval (of its own side).  A flat line needs no clipping.
ClippedLine(x, x0, y0, m, ylo, yhi) ==
    IF FEq(m, FZero) THEN y0 ELSE
    LET xlo == ((ylo (-) y0) (/) m) (+) x0
        xhi == ((yhi (-) y0) (/) m) (+) x0
        epslo == (x0 (-) xlo) (/) R("100.0")
        epshi == (xhi (-) x0) (/) R("100.0")
        xclo == xlo (+) epslo
        xchi == xhi (-) epshi
        yl == y0 (+) (m (.) (xclo (-) x0))
        yh == y0 (+) (m (.) (xchi (-) x0))
        klo == R("20.0") (/) epslo
        khi == R("20.0") (/) epshi
        raw == y0 (+) (m (.) (x (-) x0))
        below == Sigmoid(x, xclo, klo, yl, raw)
    IN Sigmoid(x, xchi, khi, below, yh)
=============================================================================
