------------------------------- MODULE MC_C24 -------------------------------
(* A descent on the combined loss of three data sets.  Predictions are      *)
(* linear in two parameters, so that every derivative is exact; targets may *)
(* be reached exactly.  Parameters travel as a record and as a flat array.  *)
EXTENDS Pdf, Deriv, TLC
CONSTANTS Depth
VARIABLES u, data, n
vars == <<u, data, n>>
Names == <<"a", "b">>
Flat(r) == <<r.a, r.b>>
Named(f) == [a |-> f[1], b |-> f[2]]
\* prediction coefficients of the three kernels, in units of 1/8
Coef == << << <<1, 0>>, <<0, 1>> >>, << <<1, 1>>, <<2, -1>> >>, << <<0, 1>>, <<1, -1>> >> >>
E8(k) == FInt(k) (/) R("8.0")
Pred(k, r) == [i \in 1..2 |-> (E8(Coef[k][i][1]) (.) r.a) (+) (E8(Coef[k][i][2]) (.) r.b)]
L1(k, r, t) == Loss(Pred(k, r), t)
\* derivative of the scaled mean square with respect to the j-th flat entry
G1(k, r, t, j) == LET f(i) == (FTwo (.) (Pred(k, r)[i] (-) t[i])) (.) E8(Coef[k][i][j])
                  IN (LossScale (.) FSumRange(f, 1, 2)) (/) FTwo
Total(r, ds) == FSum([k \in 1..Len(ds) |-> L1(k, r, ds[k])])
Grad(r, ds) == [j \in 1..2 |-> FSum([k \in 1..Len(ds) |-> G1(k, r, ds[k], j)])]
Start == [a |-> FZero, b |-> FOne]
Kinds == {"met", "off", "one_entry"}
TargetOf(k, kind) ==
    LET p == Pred(k, Start) IN
    CASE kind = "met" -> p
      [] kind = "off" -> <<p[2] (+) FHalf, p[1] (+) R("0.25")>>
      [] kind = "one_entry" -> <<p[1], p[2] (+) R("0.125")>>
Init == /\ u = Start /\ n = 0
        /\ \E k1, k2, k3 \in Kinds : /\ data = <<TargetOf(1, k1), TargetOf(2, k2), TargetOf(3, k3)>>
                                     /\ PrintT(<<"SCEN", k1, k2, k3>>)
Step == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED data
        /\ \E j \in 1..2, d \in {FOne, R("-1.0"), FHalf} :
             u' = Named([Flat(u) EXCEPT ![j] = @ (+) d])
Spec == Init /\ [][Step]_vars
\* zero exactly when prediction and target coincide
VecEq(a, b) == \A i \in 1..Len(a) : FEq(a[i], b[i])
ZeroIff == \A k \in 1..3 : FEq(L1(k, u, data[k]), FZero) <=> VecEq(Pred(k, u), data[k])
Positive == \A k \in 1..3 : FZero \preceq L1(k, u, data[k])
\* the combined loss of two (three) data sets adds up, in any order
Adds == /\ FEq(Total(u, data), (L1(1, u, data[1]) (+) L1(2, u, data[2])) (+) L1(3, u, data[3]))
        /\ Total(u, data) = Total(u, SubSeq(data, 1, 2)) (+) L1(3, u, data[3])
Roundtrip == Named(Flat(u)) = u
\* every entry of the flat gradient is the slope along that flat entry
SlopeOk == \A j \in 1..2 :
    LET at(h) == Total(Named([Flat(u) EXCEPT ![j] = @ (+) h]), data)
        s == <<at(R("-1.0")), at(R("-0.5")), at(R("-0.25")), at(FZero), at(R("0.25")), at(R("0.5")), at(FOne)>>
    IN /\ FEq(Slope(s, FOne), Grad(u, data)[j]) \/ Close(Slope(s, FOne), Grad(u, data)[j], R("1e-12"), R("1e-12"))
       /\ IsSlope(Grad(u, data)[j], s, FOne, R("1e-12"), R("1e-9"))
       \* a gradient in the wrong order, or without one data set, is refused
       /\ LET wrong == Grad(u, data)[3 - j] IN FAbs(wrong (-) Grad(u, data)[j]) \preceq R("1.0") \/ ~IsSlope(wrong, s, FOne, R("1e-12"), R("1e-9"))
=============================================================================
