------------------------------- MODULE MC_C17 -------------------------------
(* One galaxy's realization: quenched probability from its own population,  *)
(* coin flip, both realizations inside bounds, main sequence unquenched.    *)
EXTENDS Population, TLC
VARIABLES h, z, r, phase, prob, flag, gal
vars == <<h, z, r, phase, prob, flag, gal>>
P == PopRec(PopDefault)
Ups == {-1, 0, 7, -2}
Devs == {R("-4"), R("0"), R("4")}
Masses == {R("10.5"), R("12.5"), R("15")}
Tps == {R("1"), R("9.5"), R("14")}
Gyrs == {R("-100"), R("0.5"), R("9")}
Init == /\ \E m \in Masses, t \in Tps, u \in Ups, g \in Gyrs :
              h = [logmp0 |-> m, tpeak |-> t, upid |-> u, lgmu |-> R("-1"), lgmhost |-> R("13.2"), gyr |-> g]
        /\ z \in {<<a, b, a, b>> : a, b \in Devs}
        /\ r \in {R("0"), R("0.3"), R("0.999")}
        /\ phase = "start" /\ prob = FZero /\ flag = FALSE /\ gal = <<>>
Probability == phase = "start" /\ phase' = "prob" /\ prob' = QuenchProb(P, h) /\ UNCHANGED <<h, z, r, flag, gal>>
               /\ PrintT(<<"SCEN", FStr(h.logmp0), FStr(h.tpeak), h.upid, FStr(h.gyr)>>)
Flip == phase = "prob" /\ phase' = "flipped" /\ flag' = (r \prec prob) /\ UNCHANGED <<h, z, r, prob, gal>>
Realize == phase = "flipped" /\ phase' = "done"
           /\ gal' = <<BoundGal(DrawMs(P, h, z)), BoundGal(DrawQ(P, h, z, z))>>
           /\ UNCHANGED <<h, z, r, prob, flag>>
Spec == Init /\ [][Probability \/ Flip \/ Realize]_vars
ProbRange == FZero \preceq prob /\ prob \preceq FOne
CentralsOnly == phase # "start" /\ h.upid = -1 => \A g \in Gyrs : FEq(prob, QuenchProb(P, [h EXCEPT !.gyr = g]))
SatellitesNotCentral == phase # "start" /\ h.upid # -1 => FEq(prob, QuenchProb(P, [h EXCEPT !.upid = 0]))
FlagIsCoin == phase \in {"flipped", "done"} => (flag <=> r \prec prob)
InBounds == phase = "done" => GalInBounds(gal[1]) /\ GalInBounds(gal[2])
\* the event of an unquenched galaxy starts after 30 Gyr
NeverQuenched == phase = "done" => R("1.4771") \prec QuenchStart(gal[1])
EarlyTimesUntouched == phase = "done" => \A t \in {R("0.1"), R("13.8"), R("25")} : FEq(GalQuench(gal[1], t), FOne)
=============================================================================
