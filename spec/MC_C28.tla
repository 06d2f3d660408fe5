------------------------------- MODULE MC_C28 -------------------------------
(* The helpers' contracts on small lattices of arguments.                  *)
EXTENDS Helpers, TLC
CONSTANTS N, MaxArgs
VARIABLE item
F(k) == FInt(k)
Diag == {R("0.25"), R("1.0"), R("9.0")}
Entries == {R("-1.0"), FZero, R("0.5")}
Matrices == {[tag |-> "matrix", m |-> LET row(i) == LET f(j) == IF i = j THEN d[i] ELSE o[<<i, j>>] IN Vec(N, f) IN Vec(N, row), o |-> o, d |-> d] :
                d \in [1..N -> Diag], o \in [{<<i, j>> \in (1..N) \X (1..N) : i # j} -> Entries]}
Tables == {<<F(0), F(1)>>, <<F(0), F(1), F(3)>>, <<F(-2), F(-1), R("-0.5"), F(4)>>, <<R("0.1"), R("0.1000001"), F(7)>>}
Interps == UNION {{[tag |-> "interp", xs |-> xs, ys |-> ys, q |-> q] :
                    ys \in [1..Len(xs) -> {F(-1), FZero, F(2)}], q \in 0..(4 * (Len(xs) - 1))} : xs \in Tables}
Cells == {[tag |-> "cells", ts |-> ts] : ts \in Tables}
Arg == {-1, 0, 1, 2, 3}    \* -1: empty array; 0: scalar
Calls == UNION {{[tag |-> "broadcast", a |-> a] : a \in [1..n -> Arg]} : n \in 1..MaxArgs}
Ks == {R("-2.0"), R("-0.1"), R("0.1"), R("20.0")}
Asy == {<<FZero, FOne>>, <<FOne, R("-3.0")>>, <<R("1e8"), R("1.1e8")>>}
Sigs == {[tag |-> "sigmoid", k |-> k, lo |-> a[1], hi |-> a[2], x0 |-> x0] : k \in Ks, a \in Asy, x0 \in {F(-1), FZero, R("2.5")}}
Slopes == {R("-30.0"), R("-1.0"), R("-1e-6"), FZero, R("1e-10"), R("0.3"), R("100.0")}
Lines == {[tag |-> "line", m |-> m, x0 |-> x0, y0 |-> y0] : m \in Slopes, x0 \in {F(-3), FZero, F(12)}, y0 \in {R("-0.9"), FZero, R("0.5")}}
Items == Matrices \cup Interps \cup Cells \cup Calls \cup Sigs \cup Lines
Code(x) == IF FEq(x, FZero) THEN 0 ELSE IF x \prec FZero THEN 1 ELSE 2
Export(it) ==
    CASE it.tag = "matrix" -> PrintT(<<"SCEN", "matrix">> \o [i \in 1..(N * N) |-> Code(it.m[1 + ((i - 1) \div N)][1 + ((i - 1) % N)])])
      [] it.tag = "interp" -> PrintT(<<"SCEN", "interp", Len(it.xs), it.q>>)
      [] it.tag = "broadcast" -> PrintT(<<"SCEN", "broadcast">> \o it.a)
      [] it.tag = "sigmoid" -> PrintT(<<"SCEN", "sigmoid", FStr(it.k), FStr(it.lo), FStr(it.hi), FStr(it.x0)>>)
      [] it.tag = "line" -> PrintT(<<"SCEN", "line", FStr(it.m), FStr(it.x0), FStr(it.y0)>>)
      [] OTHER -> TRUE
Init == item \in Items /\ Export(item)
Next == UNCHANGED item
Spec == Init /\ [][Next]_item
T == R("1e-12")
Is(t) == item.tag = t
\* conversions are mutually inverse, unit diagonal, zero entries stay zero
Matrix == Is("matrix") =>
    LET m == item.m  c == CorrOf(m)  b == CovOf(c, Sigmas(m)) IN
    \A i, j \in 1..N : /\ Close(b[i][j], m[i][j], T, FZero)
                       /\ (i = j => Close(c[i][j], FOne, T, FZero))
                       /\ (FEq(m[i][j], FZero) <=> FEq(c[i][j], FZero))
                       /\ Close(CorrOf(b)[i][j], c[i][j], T, FZero)
\* any bracketing index gives the linear interpolation
X(it) == LET n == it.q \div 4  r == it.q % 4 IN
         IF r = 0 THEN it.xs[n + 1] ELSE it.xs[n + 1] (+) ((F(r) (/) R("4.0")) (.) (it.xs[n + 2] (-) it.xs[n + 1]))
Interpolation == Is("interp") =>
    LET x == X(item) IN
    /\ \E i \in 1..Len(item.xs) : Brackets(x, item.xs, i)
    /\ \A i \in 1..Len(item.xs) : Brackets(x, item.xs, i) =>
          Close(LineThrough(x, item.xs, item.ys, i), Interp(x, item.xs, item.ys), R("1e-9"), T)
Tiling == Is("cells") =>
    LET ts == item.ts  d == DtTable(ts)  n == Len(ts) IN
    /\ \A i \in 1..n : FZero \prec d[i]
    /\ \A i \in 1..(n - 1) : Close(CellEnds(ts, d, i), CellStart(ts, i + 1), T, T)
    /\ \A i \in 1..n : CellStart(ts, i) \prec ts[i] /\ ts[i] \prec CellEnds(ts, d, i)
\* the accepted calls are those whose lengths agree, whatever the order
Lens(a) == [i \in 1..Len(a) |-> a[i]]
Broadcasts == Is("broadcast") =>
    LET a == item.a
        pos == {BLen(a[i]) : i \in 1..Len(a)} IN
    /\ (Accepts(a) <=> Cardinality(pos \ {1}) <= 1 /\ (1 \in pos => -1 \notin pos))
    /\ (Accepts(a) => \A i \in 1..Len(a) : Common(a) = -1 \/ Len(Broadcast([j \in 1..BLen(a[i]) |-> j], Common(a))) = Common(a))
Sample == LET f(i) == (R("0.37") (.) F(i - 31)) IN Vec(61, f)
Sigmoids == Is("sigmoid") =>
    LET t == R("1e-9") (.) FMax(FAbs(item.lo), FAbs(item.hi))
        f(i) == Sigmoid(Sample[i], item.x0, item.k, item.lo, item.hi)
        g(i) == SigmoidPoly(Sample[i], item.x0, item.k, item.lo, item.hi)
        mid == FHalf (.) (item.lo (+) item.hi)
        up == Rising(item.k, item.lo, item.hi)
    IN /\ Ordered(Vec(61, f), up, t) /\ Ordered(Vec(61, g), up, t)
       /\ \A i \in 1..61 : Between(f(i), item.lo, item.hi, t) /\ Between(g(i), item.lo, item.hi, t)
       /\ Close(Sigmoid(item.x0, item.x0, item.k, item.lo, item.hi), mid, T, T)
       /\ Close(SigmoidPoly(item.x0, item.x0, item.k, item.lo, item.hi), mid, T, T)
       /\ \A i \in 1..61 : FAbs(item.k (.) (Sample[i] (-) item.x0)) \prec F(6) =>
            Close(InvSigmoid(f(i), item.x0, item.k, item.lo, item.hi), Sample[i], R("1e-6"), R("1e-6"))
\* inside its bounds, on the line away from them, at every slope
ClipLo == R("-1.0")
ClipHi == FOne
ClippedLines == Is("line") =>
    LET y(x) == ClippedLine(x, item.x0, item.y0, item.m, ClipLo, ClipHi)
        raw(x) == item.y0 (+) (item.m (.) (x (-) item.x0))
        xs == Sample
        tol == R("1e-3") (.) (ClipHi (-) ClipLo)
    IN \A i \in 1..61 :
        /\ FFin(y(xs[i])) /\ Between(y(xs[i]), ClipLo, ClipHi, T)
        /\ (LET w == raw(xs[i])  a == R("0.02") (.) (item.y0 (-) ClipLo)  b == R("0.02") (.) (ClipHi (-) item.y0) IN
            ((ClipLo (+) a) \prec w /\ w \prec (ClipHi (-) b)) => Close(y(xs[i]), w, FZero, tol))
=============================================================================
