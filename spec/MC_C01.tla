------------------------------- MODULE MC_C01 -------------------------------
(***************************************************************************)
(* Design check of the star formation rate: every combination of a lattice *)
(* of galaxy, halo and time values (one state each), and the scenarios in  *)
(* which the implementation is exercised (all classes of time tables).     *)
(***************************************************************************)
EXTENDS Galaxy, TLC

VARIABLES ph, g, m, t, o
vars == <<ph, g, m, t, o>>

Gals == <<GalDefault,
  <<R("9.0"), R("-12.0"), R("0.0"), R("-5.0"), R("0.1"), R("-3.0"), R("-3.0"), R("-3.0")>>,
  <<R("13.5"), R("-8.0"), R("5.0"), R("0.0"), R("2.0"), R("-0.01"), R("0.0"), R("0.0")>>,
  <<R("11.0"), R("-9.5"), R("4.0"), R("-4.0"), R("0.5"), R("-1.0"), R("-3.0"), R("-0.1")>>,
  <<R("12.5"), R("-10.5"), R("2.0"), R("-2.0"), R("0.9"), R("-0.3"), R("-0.5"), R("-0.5")>>,
  <<R("12.0"), R("-9.0"), R("0.5"), R("-0.5"), R("1.1"), R("-2.0"), R("-2.0"), R("0.0")>>>>
Mahs == <<
  <<R("12.0"), R("0.05"), R("2.6"), R("0.14"), R("14.0")>>,
  <<R("15.0"), R("0.6"), R("6.0"), R("1.0"), R("13.8")>>,
  <<R("10.0"), R("-0.3"), R("1.0"), R("0.0"), R("5.0")>>,
  <<R("13.0"), R("0.3"), R("3.0"), R("0.5"), R("0.4")>>>>
Times == <<R("0.0011"), R("0.01"), R("0.1"), R("0.4"), R("1.0"), R("1.2589"), R("2.5"), R("3.1622776601683795"),
           R("5.0"), R("7.9432823472428"), R("10.0"), R("12.589"), R("13.8"), R("14.0"), R("30.0"), R("1000.0")>>
Opts == << <<R("1.1398790864012365"), R("0.156")>>, <<R("1.0"), R("1.0")>>, <<R("1.2"), R("1e-12")>> >>

\* scenario lattice: how the caller asks
Kinds == {"sorted", "reversed", "shuffled", "duplicates", "log", "uneven", "clustered", "extreme",
          "late", "phases", "int"}
DTypes == {"f8", "f4", "jnp"}
Sizes == {1, 2, 3, 5, 8, 50, 1025}
OptClasses == {"default", "lgt0", "fb", "both", "tinyfb"}

Init == /\ ph = "start" /\ g = 1 /\ m = 1 /\ t = 1 /\ o = 1
Next == \/ /\ ph = "start" /\ ph' = "value"
           /\ g' \in 1..Len(Gals) /\ m' \in 1..Len(Mahs) /\ t' \in 1..Len(Times) /\ o' \in 1..Len(Opts)
        \/ /\ ph = "start" /\ ph' = "scen"
           /\ g' \in Kinds /\ m' \in Sizes /\ t' \in DTypes /\ o' \in OptClasses
           /\ (g' = "int" => t' # "jnp" /\ m' < 50)
           /\ (m' > 1000 => t' # "f4" /\ o' = "default")
           /\ PrintT(<<"SCEN", g', m', t', o'>>)
Spec == Init /\ [][Next]_vars

S(gg, mm, tt, oo) == Sfr(Gals[gg], Mahs[mm], Times[tt], Opts[oo][1], Opts[oo][2])
\* finite, at or above the floor
Floored == ph = "value" => LET s == S(g, m, t, o) IN FFin(s) /\ SFR_MIN \preceq s
\* quenching never raises the rate above the main sequence one
NoBoost == ph = "value" =>
    LET ms == MsSfr(Gals[g], Mahs[m], Times[t], Opts[o][1], Opts[o][2])
    IN S(g, m, t, o) \preceq FMax(ms, SFR_MIN)
\* linear in the baryon fraction above the floor
Linear == ph = "value" =>
    LET a == RawSfr(Gals[g], Mahs[m], Times[t], Opts[o][1], FHalf)
        b == RawSfr(Gals[g], Mahs[m], Times[t], Opts[o][1], FOne)
    IN Close(b, FTwo (.) a, R("1e-12"), FZero)
\* frozen halo mass after the peak
Frozen == ph = "value" =>
    (Mahs[m][5] \preceq Times[t] =>
        LogMah(Mahs[m], Times[t], Opts[o][1]) = LogMah(Mahs[m], Mahs[m][5], Opts[o][1])
        /\ (Mahs[m][5] \prec Times[t] => Dmhdt(Mahs[m], Times[t], Opts[o][1]) = FZero))
=============================================================================
