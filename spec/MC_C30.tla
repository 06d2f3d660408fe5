------------------------------- MODULE MC_C30 -------------------------------
(* A tuple of fields is saved field by field and loaded again; ragged fields *)
(* of every length up to a bound keep the order of their items.              *)
EXTENDS Store, TLC
CONSTANTS NF, MaxLen, Width, Numeric
VARIABLES tuple, file, got, step
vars == <<tuple, file, got, step>>
Lens == {1, 2, MaxLen}
\* a field: scalar, rectangle, or ragged sequence of n items
Fields == {[kind |-> "scalar", n |-> 1], [kind |-> "array", n |-> 2]} \cup {[kind |-> "ragged", n |-> n] : n \in Lens}
Items(x) == [i \in 1..x.n |-> i]
Init == /\ tuple \in [1..NF -> Fields] /\ file = [k \in {} |-> 0] /\ got = <<>> /\ step = "save"
        /\ PrintT(<<"SCEN">> \o [k \in 1..(2 * NF) |-> IF k % 2 = 1 THEN tuple[(k + 1) \div 2].kind ELSE tuple[k \div 2].n])
Stored(x) == IF x.kind = "ragged" THEN [nm \in {Name(i - 1, Width) : i \in 1..x.n} |-> 1 + Value(nm)] ELSE [nm \in {<<>>} |-> Items(x)]
Save == /\ step = "save"
        /\ IF Cardinality(DOMAIN file) = NF THEN step' = "load" /\ UNCHANGED file
           ELSE LET k == Cardinality(DOMAIN file) + 1 IN
                /\ file' = [j \in 1..k |-> IF j = k THEN Stored(tuple[k]) ELSE file[j]]
                /\ UNCHANGED step
        /\ UNCHANGED <<tuple, got>>
Read(f) == IF DOMAIN f = {<<>>} THEN f[<<>>]
           ELSE LET names == IF Numeric THEN ByNumber(DOMAIN f) ELSE ByText(DOMAIN f) IN [k \in 1..Len(names) |-> f[names[k]]]
Load == /\ step = "load"
        /\ IF Len(got) = NF THEN step' = "done" /\ UNCHANGED got
           ELSE got' = Append(got, Read(file[Len(got) + 1])) /\ UNCHANGED step
        /\ UNCHANGED <<tuple, file>>
Spec == Init /\ [][Save \/ Load]_vars /\ WF_vars(Save \/ Load)
Unchanged == step = "done" => got = [k \in 1..NF |-> Items(tuple[k])]
Terminates == <>(step = "done")
=============================================================================
