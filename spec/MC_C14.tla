------------------------------- MODULE MC_C14 -------------------------------
(* Galacticus pipeline: galaxies stored, each component extracted in blocks *)
(* of galaxies, blocks appended, target rates formed, written, read back.   *)
EXTENDS Catalog, TLC, FiniteSets
CONSTANTS MaxGal, NMet, NT
VARIABLES disk, bulge, done, acc, block, phase
vars == <<disk, bulge, done, acc, block, phase>>
Times == LET f(k) == FInt(k * k + 1) (/) FInt(3) IN Vec(NT, f)
Hist(g, c) == [j \in 1..(2 * NMet) |-> LET f(k) == FInt(100 * g + 10 * j + k + c) IN Vec(NT, f)]
Init == disk = <<>> /\ bulge = <<>> /\ done = 0 /\ acc = [dt |-> <<>>, di |-> <<>>, bt |-> <<>>, bi |-> <<>>]
        /\ block = <<>> /\ phase = "storing"
Store == /\ phase = "storing" /\ Len(disk) < MaxGal
         /\ \E hd, hb \in BOOLEAN : LET g == Len(disk) + 1 IN
              /\ disk' = Append(disk, IF hd THEN Hist(g, 0) ELSE <<>>)
              /\ bulge' = Append(bulge, IF hb THEN Hist(g, 5) ELSE <<>>)
         /\ UNCHANGED <<done, acc, block, phase>>
\* extraction of the next block of galaxies [done, hi)
Extract == /\ phase \in {"storing", "extracting"} /\ disk # <<>> /\ done < Len(disk)
           /\ \E hi \in (done + 1)..Len(disk) :
                /\ acc' = [dt |-> acc.dt \o ExtractTable(disk, done, hi, NT, TotalOf),
                           di |-> acc.di \o ExtractTable(disk, done, hi, NT, InSituOf),
                           bt |-> acc.bt \o ExtractTable(bulge, done, hi, NT, TotalOf),
                           bi |-> acc.bi \o ExtractTable(bulge, done, hi, NT, InSituOf)]
                /\ done' = hi
                /\ PrintT(<<"SCEN", done, hi>> \o [i \in 1..Len(disk) |-> (IF disk[i] = <<>> THEN 0 ELSE 1) + (IF bulge[i] = <<>> THEN 0 ELSE 2)])
           /\ phase' = "extracting" /\ UNCHANGED <<disk, bulge, block>>
Write == /\ phase = "extracting" /\ done = Len(disk)
         /\ block' = [i \in 1..Len(disk) |-> [tot |-> RateOf(acc.dt[i], acc.bt[i], Times), ins |-> RateOf(acc.di[i], acc.bi[i], Times)]]
         /\ phase' = "written" /\ UNCHANGED <<disk, bulge, done, acc>>
Spec == Init /\ [][Store \/ Extract \/ Write]_vars
RowPerGalaxy == phase # "storing" => Len(acc.dt) = done /\ Len(acc.bi) = done
BlocksConcatenate == phase # "storing" =>
    /\ acc.dt = ExtractTable(disk, 0, done, NT, TotalOf)
    /\ acc.bi = ExtractTable(bulge, 0, done, NT, InSituOf)
EmptyIsZero == phase # "storing" => \A i \in 1..done : (disk[i] = <<>> => acc.dt[i] = Zeros(NT) /\ acc.di[i] = Zeros(NT))
                                                      /\ (bulge[i] = <<>> => acc.bt[i] = Zeros(NT))
\* mass conservation: rate times duration summed over steps is the mass stored
Sum2(v) == FSum(v)
Conserved == phase = "written" => \A i \in 1..Len(block) :
    LET f(k) == (block[i].tot[k] (.) StepDuration(Times, k)) (.) YR_PER_GYR
    IN Close(FSum(Vec(NT, f)), FSum(acc.dt[i]) (+) FSum(acc.bt[i]), R("1e-12"), FZero)
NonNegative == phase = "written" => \A i \in 1..Len(block) : \A k \in 1..NT : FZero \preceq block[i].ins[k]
RowsNeverRewritten == [][SubSeq(acc'.dt, 1, Len(acc.dt)) = acc.dt]_vars
=============================================================================
