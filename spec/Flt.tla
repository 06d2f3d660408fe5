-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic for TLC.                                   *)
(*                                                                         *)
(* A float is the pair <<hi, lo>> of the two 32-bit halves of its bit      *)
(* pattern, so TLC can fingerprint, compare and store it like any other    *)
(* value.  Only the primitive scalar operations are evaluated natively     *)
(* (java/DSOverrides.java); everything built from them, i.e. the whole     *)
(* semantics of diffstar, is written in TLA+ in the other modules.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Native == CHOOSE x : x \notin {}  \* placeholder body of natively evaluated operators

R(str) == Native            \* float from its decimal text ("nan", "inf" accepted)
FInt(n) == Native           \* float from an integer
FStr(x) == Native           \* shortest decimal text of a float
FFloor(x) == Native         \* floor of a float as an integer (must fit 31 bits)

FAdd(x, y) == Native
FSub(x, y) == Native
FMul(x, y) == Native
FDiv(x, y) == Native
FNeg(x) == Native
FAbs(x) == Native
FExp(x) == Native
FLn(x) == Native
FLog10(x) == Native
FPow10(x) == Native         \* 10**x
FPow(x, y) == Native
FSqrt(x) == Native
FMin(x, y) == Native        \* NaN if either is NaN
FMax(x, y) == Native
F32(x) == Native            \* round to binary32 and back

FLt(x, y) == Native         \* FALSE if either is NaN
FLe(x, y) == Native
FEq(x, y) == Native         \* numerical equality: -0 = 0, NaN # NaN
FNaN(x) == Native           \* is NaN
FFin(x) == Native           \* is finite
IsFlt(x) == Native          \* is x a float?

\* [x] natively loaded ndjson: JSON reals become floats, JSON ints become
\* integers, arrays sequences, objects records.
LoadTrace(file) == Native

\* Folds that run in constant stack.  op(acc, i) for i = lo..hi.
FoldRange(op(_, _), base, lo, hi) == Native

x (+) y == FAdd(x, y)
x (-) y == FSub(x, y)
x (.) y == FMul(x, y)
x (/) y == FDiv(x, y)
x \prec y == FLt(x, y)
x \preceq y == FLe(x, y)

FZero == R("0.0")
FOne == R("1.0")
FHalf == R("0.5")
FTwo == R("2.0")

FGt(x, y) == FLt(y, x)
FGe(x, y) == FLe(y, x)
FIf(c, a, b) == IF c THEN a ELSE b
FClip(x, lo, hi) == FMin(FMax(x, lo), hi)

\* Strict (fully evaluated) vectors.
Vec(n, f(_)) == Native      \* <<f(1), ..., f(n)>>

FSumRange(f(_), lo, hi) == LET add(acc, i) == FAdd(acc, f(i)) IN FoldRange(add, FZero, lo, hi)
FMinRange(f(_), lo, hi) == LET m(acc, i) == FMin(acc, f(i)) IN FoldRange(m, R("inf"), lo, hi)
FMaxRange(f(_), lo, hi) == LET m(acc, i) == FMax(acc, f(i)) IN FoldRange(m, R("-inf"), lo, hi)
FSum(s) == LET f(i) == s[i] IN FSumRange(f, 1, Len(s))
FMean(s) == FSum(s) (/) FInt(Len(s))
FSeqMax(s) == LET f(i) == s[i] IN FMaxRange(f, 1, Len(s))
FSeqMin(s) == LET f(i) == s[i] IN FMinRange(f, 1, Len(s))

\* |x - y| <= atol + rtol*|y|, both NaN, or the same infinity.
Close(x, y, rtol, atol) ==
    \/ FEq(x, y)
    \/ FNaN(x) /\ FNaN(y)
    \/ FFin(x) /\ FFin(y) /\ FAbs(x (-) y) \preceq (atol (+) (rtol (.) FAbs(y)))
Same(x, y) == FEq(x, y) \/ (FNaN(x) /\ FNaN(y))
AllIn(n, p(_)) == \A i \in 1..n : p(i)
=============================================================================
