------------------------------- MODULE MC_C15 -------------------------------
(* Loading a simulation galaxy snapshot by snapshot: the stellar mass       *)
(* accumulates, the halo mass only grows, absent masses count as one Msun.  *)
EXTENDS Catalog, Histories, TLC
CONSTANTS Depth
VARIABLES stored, sfr, lgmh, cum, loader
vars == <<stored, sfr, lgmh, cum, loader>>
Loaders == {"bolshoi", "bolshoi_small", "tng", "tng_small", "mdpl", "mdpl_small", "smdpl_nomerging", "smdpl_dr1"}
HasHalo == {"tng", "smdpl_nomerging", "smdpl_dr1"}
LogOf(m) == CASE m = "absent" -> FZero [] m = "low" -> FLog10(R("5e6")) [] m = "edge" -> R("7") [] m = "ten" -> R("10") [] m = "twelve" -> R("12.5")
Masses == {"absent", "low", "edge", "ten", "twelve"}
MassOf(m) == CASE m = "absent" -> FZero [] m = "low" -> R("5e6") [] m = "edge" -> R("1e7") [] m = "ten" -> R("1e10") [] m = "twelve" -> FPow10(R("12.5"))
Rates == {"zero", "small", "large"}
RateVal(r) == CASE r = "zero" -> FZero [] r = "small" -> R("1e-3") [] r = "large" -> R("150")
T(k) == FInt(k) (.) R("2.1")
Init == /\ stored = <<>> /\ sfr = <<>> /\ lgmh = <<>> /\ cum = ScanInit /\ loader \in Loaders
Unit(m) == IF loader = "tng" THEN LogOf(m) (-) FLog10(R("0.6774")) ELSE IF MassOf(m) \prec R("1e7") THEN FZero ELSE LogOf(m)
Snapshot == /\ Len(stored) < Depth
            /\ \E m \in Masses, r \in Rates :
                 /\ (loader \notin HasHalo => m = "absent")
                 /\ stored' = Append(stored, m) /\ sfr' = Append(sfr, r)
                 /\ lgmh' = Append(lgmh, IF lgmh = <<>> THEN Unit(m) ELSE FMax(lgmh[Len(lgmh)], Unit(m)))
                 /\ cum' = ScanStep(cum, T(Len(stored) + 1), RateVal(r))
            /\ (Len(stored') = Depth => PrintT(<<"SCEN", loader>> \o stored' \o sfr'))
            /\ UNCHANGED loader
Spec == Init /\ [][Snapshot]_vars
\* the incremental history is the declarative one
InUnits == LET f(i) == IF loader = "tng" THEN LogOf(stored[i]) ELSE MassOf(stored[i]) IN Vec(Len(stored), f)
IsHaloHistory == lgmh = HaloHistory(InUnits, R("0.6774"), loader = "tng")
CumIsTable == sfr # <<>> => LET t(k) == T(k) f(k) == RateVal(sfr[k]) n == Len(sfr) IN Close(MstarOf(cum), CumMass(Vec(n, t), Vec(n, f))[n], R("1e-14"), FZero)
PositiveMass == sfr # <<>> => FZero \prec MstarOf(cum)
PresentIsLargest == \A i \in 1..Len(lgmh) : lgmh[i] \preceq lgmh[Len(lgmh)]
AbsentIsOne == loader # "tng" /\ (\A i \in 1..Len(stored) : stored[i] \in {"absent", "low"}) => \A i \in 1..Len(lgmh) : FEq(lgmh[i], FZero)
Grows == [][lgmh' # <<>> /\ (lgmh # <<>> => (lgmh[Len(lgmh)] \preceq lgmh'[Len(lgmh')] /\ SubSeq(lgmh', 1, Len(lgmh)) = lgmh))]_vars
MassGrows == [][MstarOf(cum) \preceq MstarOf(cum')]_vars
=============================================================================
