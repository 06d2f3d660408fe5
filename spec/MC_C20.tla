------------------------------- MODULE MC_C20 -------------------------------
(* Bounding of population parameters, and replacement of named subsets.     *)
EXTENDS Population, FiniteSets, TLC
CONSTANTS NU, MaxVaried
VARIABLES mode, i, u, chosen, result
vars == <<mode, i, u, chosen, result>>
\* names to vary: neighbours with equal bounds, first and last, satellite part
Pick == {1, 3, 4, 5, 18, 37, 58, 75, 82, 83, 88}
UOf(k) == (FInt(k) (.) R("12.5")) (-) R("150")
Tag(n) == <<"new", n>>
Old(n) == <<"old", n>>
Defaults == [n \in DOMAIN PopIdx |-> Old(n)]
Names(seq) == {PopNames[seq[k]] : k \in 1..Len(seq)}
Sub(seq) == [n \in Names(seq) |-> Tag(n)]
Init == \/ mode = "bound" /\ i \in 1..NPop /\ u = 0 /\ chosen = <<>> /\ result = PopBound(i, UOf(0))
        \/ mode = "vary" /\ i = 0 /\ u = 0 /\ chosen = <<>> /\ result = Defaults
Up == mode = "bound" /\ u < NU /\ u' = u + 1 /\ result' = PopBound(i, UOf(u + 1)) /\ UNCHANGED <<mode, i, chosen>>
Vary(n) == /\ mode = "vary" /\ Len(chosen) < MaxVaried /\ \A k \in 1..Len(chosen) : chosen[k] # n
           /\ chosen' = Append(chosen, n) /\ result' = Override(Defaults, Sub(Append(chosen, n)))
           /\ PrintT(<<"SCEN">> \o chosen') /\ UNCHANGED <<mode, i, u>>
Next == Up \/ \E n \in Pick : Vary(n)
Spec == Init /\ [][Next]_vars
Inside == mode = "bound" => PopLo[i] \preceq result /\ result \preceq PopHi[i] /\ PopLo[i] \prec PopHi[i]
Inverse == (mode = "bound" /\ (R("1e-5") (.) (PopHi[i] (-) PopLo[i])) \prec FMin(result (-) PopLo[i], PopHi[i] (-) result))
           => Close(PopUnbound(i, result), UOf(u), R("1e-6"), R("1e-6"))
Round == (mode = "bound" /\ PopLo[i] \prec result /\ result \prec PopHi[i])
         => Close(PopBound(i, PopUnbound(i, result)), result, FZero, R("1e-9"))
Rising == [][mode = "bound" => result \preceq result']_vars
\* exactly the chosen names are replaced, whatever their order
Exact == mode = "vary" => /\ DOMAIN result = DOMAIN PopIdx
                          /\ \A n \in DOMAIN PopIdx : result[n] = IF n \in Names(chosen) THEN Tag(n) ELSE Old(n)
\* replacing in two goes is replacing at once
Incremental == [][mode = "vary" => result' = Override(result, Sub(<<chosen'[Len(chosen')]>>))]_vars
NamesUnique == Cardinality(DOMAIN PopIdx) = NPop /\ Len(PopLo) = NPop /\ Len(PopHi) = NPop /\ Len(PopDefault) = NPop
DefaultsInside == \A n \in 1..NPop : PopLo[n] \prec PopDefault[n] /\ PopDefault[n] \prec PopHi[n]
ASSUME NamesUnique /\ DefaultsInside
=============================================================================
