------------------------------- MODULE MC_C19 -------------------------------
(* Scaling relations: a walk along halo mass and peak time, and which       *)
(* relation each population parameter belongs to.                           *)
EXTENDS Population, TLC
CONSTANTS NMass, NTpeak
VARIABLES variant, touched, i, j, now, base
vars == <<variant, touched, i, j, now, base>>
Outs(p, x, t) == PopOuts(p, x, t)
\* the only outputs a parameter may change
OwnTable == <<
   <<1, {1, 2, 3, 4, 5, 6, 7, 8}>>, <<2, {9, 10, 11, 12, 13, 14, 15, 16}>>,
   <<3, 17..20>>, <<4, 21..24>>, <<5, {25, 26}>>, <<6, {27, 28}>>,
   <<7, 29..32>>, <<8, 33..36>>, <<9, {37, 38}>>, <<10, {39, 40}>>, <<11, 41..44>>, <<12, {45, 46}>>, <<13, {47, 48}>>, <<14, {49, 50}>>,
   <<15, {51, 52}>>, <<16, {53, 54}>>, <<17, {55, 56}>>, <<18, {57, 58}>>, <<19, {59, 60}>>, <<20, {61, 62}>>, <<21, {63, 64}>>, <<22, {65, 66}>>,
   <<23, {67, 68}>>, <<24, {69, 70}>>, <<25, {71, 72}>>, <<26, {73, 74}>>, <<11, 75..79>> >>
Owner(n) == (CHOOSE r \in {OwnTable[q] : q \in 1..Len(OwnTable)} : n \in r[2])[1]
NSfh == NPop - 9
Mid == [n \in 1..NPop |-> FHalf (.) (PopLo[n] (+) PopHi[n])]
IsSlope(n) == n \in {26, 28, 38, 40, 46, 48, 50} \cup {2 * q : q \in 26..37}
At(f) == [n \in 1..NPop |-> PopLo[n] (+) ((PopHi[n] (-) PopLo[n]) (.) R(f))]
Variants == [default |-> PopDefault, low |-> At("0.03"), high |-> At("0.97"),
             flat |-> [n \in 1..NPop |-> IF IsSlope(n) THEN FZero ELSE Mid[n]],
             steep |-> [n \in 1..NPop |-> IF IsSlope(n) THEN (IF n % 4 = 0 THEN PopLo[n] ELSE PopHi[n]) ELSE PopDefault[n]]]
Mass(q) == R("10") (+) (FInt(q) (/) R("2"))
Tpk(q) == R("0.5") (+) (FInt(q) (.) R("3.3"))
\* another value of the touched parameter, inside its bounds
Touch(v, n) == IF n = 0 THEN v
               ELSE [v EXCEPT ![n] = LET d == (PopHi[n] (-) PopLo[n]) (.) R("0.11")
                                     IN IF (v[n] (+) d) \prec PopHi[n] THEN v[n] (+) d ELSE v[n] (-) d]
Now(n, a, b) == Outs(PopRec(Touch(Variants[variant], n)), Mass(a), Tpk(b))
Init == /\ variant \in DOMAIN Variants /\ touched = 0 /\ i \in 0..NMass /\ j \in 0..NTpeak
        /\ now = Now(0, i, j) /\ base = now
TouchOne(n) == touched = 0 /\ touched' = n /\ now' = Now(n, i, j)
               /\ (i = 0 /\ j = 0 => PrintT(<<"SCEN", variant, n, PopNames[n], Owner(n)>>))
               /\ UNCHANGED <<variant, i, j, base>>
Heavier == touched = 0 /\ i < NMass /\ i' = i + 1 /\ now' = Now(0, i + 1, j) /\ base' = now' /\ UNCHANGED <<variant, touched, j>>
Later == touched = 0 /\ j < NTpeak /\ j' = j + 1 /\ now' = Now(0, i, j + 1) /\ base' = now' /\ UNCHANGED <<variant, touched, i>>
Next == (\E n \in 1..NSfh : TouchOne(n)) \/ Heavier \/ Later
Spec == Init /\ [][Next]_vars
InRange(x, lo, hi) == lo \preceq x /\ x \preceq hi
MeansMsRange == InRange(now[5], MeanLo.ul, MeanHi.ul) /\ InRange(now[6], MeanLo.uh, MeanHi.uh)
ClippedRange == \A c \in 1..Len(ClippedMeans) : InRange(now[6 + ClippedMeans[c][1]], ClippedMeans[c][2], ClippedMeans[c][3])
ScatterRange == (\A c \in 1..4 : InRange(now[14 + c], StdLo, StdHis[c])) /\ (\A c \in 1..8 : InRange(now[18 + c], StdLo, StdHis[c]))
Probabilities == InRange(now[1], FZero, FOne) /\ InRange(now[2], FZero, FOne)
AllFinite == \A c \in 1..26 : FFin(now[c])
OwnOnly == touched # 0 => \A c \in 1..26 : c # Owner(touched) => now[c] = base[c]
\* flat relations stay at their intercept at every halo mass
Flat == variant = "flat" /\ touched = 0 =>
        \A c \in {5, 6, 9, 10, 12, 13, 14} \cup (15..26) :
           FEq(now[c], Outs(PopRec(Variants.flat), LGM_X0, Tpk(j))[c])
\* growing mass moves a clipped relation in the direction of its slope only
Slopes == LET s == Variants[variant] IN
   << <<5, s[26]>>, <<6, s[28]>>, <<9, s[38]>>, <<10, s[40]>>, <<12, s[46]>>, <<13, s[48]>>, <<14, s[50]>> >>
   \o [c \in 1..12 |-> <<14 + c, s[50 + 2 * c]>>]
Dir(a, b, m) == IF FEq(m, FZero) THEN FEq(a, b) ELSE IF FZero \prec m THEN (a (-) R("2e-3")) \preceq b ELSE b \preceq (a (+) R("2e-3"))
Monotone == [][ i' # i => \A c \in 1..Len(Slopes) : Dir(now[Slopes[c][1]], now'[Slopes[c][1]], Slopes[c][2]) ]_vars
\* only probabilities and the mean quenching time depend on the peak time
PeakTime == [][ j' # j => \A c \in 3..26 : c # 11 => now'[c] = now[c] ]_vars
=============================================================================
