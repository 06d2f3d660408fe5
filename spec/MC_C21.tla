------------------------------- MODULE MC_C21 -------------------------------
(* Histories of a Monte Carlo realization, and selection of one of the two  *)
(* sequences for every galaxy.  Values are terms: what was computed of what.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxGal
VARIABLES n, opt, mask, pc, real, hist, sel
vars == <<n, opt, mask, pc, real, hist, sel>>
Fields == {"lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi", "lg_qt", "qlglgdt", "lg_drop", "lg_rejuv"}
Opts == {"default", "lgt0", "fb", "both"}
Gals == 1..n
\* realization of galaxy i with its own halo, key and the halo's own peak time
Draw(i, seq) == [f \in Fields |-> <<seq, f, <<"halo", i>>, <<"key", i>>, <<"tpeak_of", i>>>>]
History(params, i) == <<"sfh", params, <<"mah", i>>, "times", opt>>
Init == /\ n \in 1..MaxGal /\ opt \in Opts /\ mask \in [1..n -> BOOLEAN]
        /\ pc = "draw" /\ real = <<>> /\ hist = <<>> /\ sel = <<>>
        /\ PrintT(<<"SCEN", n, opt>> \o [i \in 1..n |-> mask[i]])
DrawAll == pc = "draw" /\ pc' = "sfh" /\ real' = [i \in Gals |-> [ms |-> Draw(i, "ms"), q |-> Draw(i, "q")]] /\ UNCHANGED <<n, opt, mask, hist, sel>>
Integrate == pc = "sfh" /\ pc' = "select" /\ hist' = [i \in Gals |-> [ms |-> History(real[i].ms, i), q |-> History(real[i].q, i)]] /\ UNCHANGED <<n, opt, mask, real, sel>>
\* galaxy by galaxy and parameter by parameter
SelectOne(i, f) == /\ pc = "select" /\ <<i, f>> \notin {s[1] : s \in {sel[k] : k \in 1..Len(sel)}}
                   /\ Len(sel) < 2        \* the order does not matter: a few steps of it
                   /\ sel' = Append(sel, <<<<i, f>>, IF mask[i] THEN real[i].q[f] ELSE real[i].ms[f]>>)
                   /\ UNCHANGED <<n, opt, mask, pc, real, hist>>
Next == DrawAll \/ Integrate \/ \E i \in Gals, f \in Fields : SelectOne(i, f)
Spec == Init /\ [][Next]_vars
Selected(i) == [f \in Fields |-> IF mask[i] THEN real[i].q[f] ELSE real[i].ms[f]]
FromOneSet == pc = "select" => \A i \in Gals : Selected(i) \in {real[i].ms, real[i].q}
SelectedValue == \A k \in 1..Len(sel) : LET i == sel[k][1][1] f == sel[k][1][2] IN sel[k][2] = Selected(i)[f]
\* the history of the selected parameters is the selected history
Commutes == pc = "select" => \A i \in Gals : History(Selected(i), i) = (IF mask[i] THEN hist[i].q ELSE hist[i].ms)
OwnHalo == pc = "select" => \A i, j \in Gals : (i # j) => hist[i] # hist[j]
=============================================================================
