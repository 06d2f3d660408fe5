------------------------------- MODULE MC_C04 -------------------------------
(***************************************************************************)
(* Bounding as a walk: from a lattice point of unbounded parameters, one   *)
(* coordinate at a time is increased.  Values stay inside their bounds,    *)
(* only the moved value changes (lg_rejuv also follows lg_drop), it grows, *)
(* and unbounding returns to the lattice point.                            *)
(***************************************************************************)
EXTENDS Galaxy, TLC

VARIABLES u, moved, p
vars == <<u, moved, p>>
Levels == <<R("-1e4"), R("-3.0"), FZero, R("1.5"), R("1e4")>>
Names == GalNames
UOf(x) == LET f(i) == Levels[x[i]] IN Vec(8, f)
Init == u = [i \in 1..8 |-> 1] /\ moved = 0 /\ p = BoundGal(UOf(u))
Next == \E i \in 1..8 : /\ u[i] < Len(Levels)
                        \* from the third level on, only the quenching block still moves
                        /\ (i <= 4 => u[i] < 3)
                        /\ u' = [u EXCEPT ![i] = @ + 1] /\ moved' = i /\ p' = BoundGal(UOf(u'))
Spec == Init /\ [][Next]_vars
view == u
InBounds == GalInBounds(p)
NoRejuvBelowDrop == p[7] \preceq (p[8] (+) R("1e-14"))
OnlyOwn == [][ /\ \A j \in 1..8 : (j # moved' /\ ~(j = 8 /\ moved' = 7)) => p'[j] = p[j]
               /\ p[moved'] \preceq (p'[moved'] (+) R("1e-14")) ]_vars
Mid(i) == u[i] \in 2..4
\* inverse where the sigmoid is not saturated
Inverse == \A i \in 1..8 : (Mid(i) /\ (i = 8 => Mid(7)) /\ GalLo[i] \prec p[i] /\ p[i] \prec GalHi[i]) =>
    Close(UnboundGal(p)[i], UOf(u)[i], R("1e-6"), R("1e-6"))
ASSUME PrintT(<<"SCEN", "scalar">>) /\ PrintT(<<"SCEN", "array">>) /\ PrintT(<<"SCEN", "array2d">>)
       /\ PrintT(<<"SCEN", "extreme">>) /\ PrintT(<<"SCEN", "walk">>)
=============================================================================
