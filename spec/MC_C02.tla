------------------------------- MODULE MC_C02 -------------------------------
(***************************************************************************)
(* A population as a history of edits: galaxies (identified 1..G) are      *)
(* appended, replaced, swapped or dropped.  The stack of single galaxy     *)
(* results commutes with every edit, i.e. a row depends on its own galaxy  *)
(* only.  Every reachable population is a scenario for the code.           *)
(***************************************************************************)
EXTENDS Histories, TLC

CONSTANTS MaxN
VARIABLES pop, prev, act
vars == <<pop, prev, act>>

GalOf == <<GalDefault,
  <<R("11.0"), R("-9.5"), R("4.0"), R("-4.0"), R("0.5"), R("-1.0"), R("-3.0"), R("-0.1")>>,
  <<R("12.5"), R("-10.5"), R("2.0"), R("-2.0"), R("0.9"), R("-0.3"), R("-0.5"), R("-0.4")>>>>
MahOf == <<
  <<R("12.0"), R("0.05"), R("2.6"), R("0.14"), R("14.0")>>,
  <<R("14.0"), R("0.6"), R("4.0"), R("1.0"), R("5.0")>>,
  <<R("11.0"), R("0.2"), R("2.0"), R("0.2"), R("10.0")>>>>
G == 3
Ts == <<R("1.0"), R("4.0"), R("13.0")>>
L0 == R("1.1398790864012365")
RowTab == [g \in 1..G |-> SfhTable(GalOf[g], MahOf[g], Ts, L0, R("0.156"))]
\* the population operation: one row per galaxy, in order
PopSfh(p) == [i \in 1..Len(p) |-> SfhTable(GalOf[p[i]], MahOf[p[i]], Ts, L0, R("0.156"))]

Emit(p) == PrintT(<<"SCEN">> \o p)
Init == pop = <<1>> /\ prev = <<>> /\ act = "init" /\ Emit(pop)
Add(g) == Len(pop) < MaxN /\ pop' = Append(pop, g) /\ act' = "append"
Replace(i, g) == pop[i] # g /\ pop' = [pop EXCEPT ![i] = g] /\ act' = "replace"
Swap(i, j) == i < j /\ pop[i] # pop[j] /\ pop' = [pop EXCEPT ![i] = pop[j], ![j] = pop[i]] /\ act' = "swap"
Drop == Len(pop) > 1 /\ pop' = SubSeq(pop, 2, Len(pop)) /\ act' = "drop"
Next == /\ prev' = pop
        /\ \/ \E g \in 1..G : Add(g)
           \/ \E i \in 1..Len(pop), g \in 1..G : Replace(i, g)
           \/ \E i, j \in 1..Len(pop) : Swap(i, j)
           \/ Drop
        /\ Emit(pop')
Spec == Init /\ [][Next]_vars
view == pop

RowsAreSingles == LET P == PopSfh(pop) IN Len(P) = Len(pop) /\ \A i \in 1..Len(pop) : P[i] = RowTab[pop[i]]
\* an edit changes only the rows whose galaxy it changes
Local == act \in {"append", "replace"} =>
    \A i \in 1..Len(pop) : (i <= Len(prev) /\ pop[i] = prev[i]) => PopSfh(pop)[i] = PopSfh(prev)[i]
=============================================================================
