------------------------------- MODULE MC_C12 -------------------------------
(* A fitting run's file: lines written one galaxy at a time, collated,     *)
(* loaded.                                                                 *)
EXTENDS Catalog, TLC, FiniteSets
CONSTANTS Depth
VARIABLES todo, lines, cols, refused, phase
vars == <<todo, lines, cols, refused, phase>>
P(k) == LET f(i) == GalDefault[i] (.) (FOne (+) (FInt(k) (/) R("7.0"))) IN Vec(8, f)
Gal(id, kind) ==
    CASE kind = "fit" -> [id |-> id, fit |-> TRUE, p |-> P(id), loss |-> R("0.0123456789"), flag |-> 1]
      [] kind = "poor" -> [id |-> id, fit |-> TRUE, p |-> P(id + 1), loss |-> R("999.99"), flag |-> -1]
      [] kind = "adam" -> [id |-> id, fit |-> TRUE, p |-> P(id + 2), loss |-> R("1234.5678"), flag |-> 0]
      [] kind = "nofit" -> [id |-> id, fit |-> FALSE, p |-> P(0), loss |-> FZero, flag |-> 0]
Kinds == {"fit", "poor", "adam", "nofit"}
Init == todo = <<>> /\ lines = <<>> /\ cols = <<>> /\ refused = FALSE /\ phase = "writing"
Write == /\ phase = "writing" /\ Len(todo) < Depth
         /\ \E k \in Kinds : LET g == Gal(7 * Len(todo) + 3, k) IN
              /\ todo' = Append(todo, [g EXCEPT !.fit = g.fit]) /\ lines' = Append(lines, LineOf(g))
         /\ UNCHANGED <<cols, refused, phase>>
\* collation names as many columns as the header has; anything else is refused
DoCollate == /\ phase = "writing" /\ lines # <<>>
             /\ \E ncol \in {10, 11, 12} :
                 /\ refused' = (ncol # Len(FitColumns))
                 /\ cols' = (IF ncol = Len(FitColumns) THEN Collate(lines) ELSE <<>>)
                 /\ PrintT(<<"SCEN", ncol>> \o [i \in 1..Len(todo) |->
                       IF ~todo[i].fit THEN "nofit" ELSE IF todo[i].flag = 1 THEN "fit" ELSE IF todo[i].flag = 0 THEN "adam" ELSE "poor"])
             /\ phase' = "collated" /\ UNCHANGED <<todo, lines>>
Spec == Init /\ [][Write \/ DoCollate]_vars
Done == phase = "collated" /\ ~refused
EveryGalaxyOnce == Done => \A c \in DOMAIN cols : Len(cols[c]) = Len(todo)
SameId == Done => \A i \in 1..Len(todo) : cols[1][i] = todo[i].id
SameFlag == Done => \A i \in 1..Len(todo) : cols[11][i] = (IF todo[i].fit THEN todo[i].flag ELSE -1)
SameValues == Done => \A i \in 1..Len(todo) : todo[i].fit =>
    /\ \A k \in 1..8 : SixDigits(cols[1 + k][i], F32(todo[i].p[k]))
    /\ SixDigits(cols[10][i], todo[i].loss)
NoFitMarked == Done => \A i \in 1..Len(todo) : ~todo[i].fit =>
    (\A k \in 1..8 : FEq(cols[1 + k][i], NOFIT)) /\ FEq(cols[10][i], NOFIT_LOSS)
Idempotent == \A i \in 1..Len(lines) : \A k \in 2..10 : Close(Round6(lines[i][k]), lines[i][k], R("1e-15"), FZero)
RowsAreLines == Done => \A i \in 1..Len(lines) : Row(cols, i) = lines[i]
LinesOnlyGrow == [][SubSeq(lines', 1, Len(lines)) = lines]_vars
=============================================================================
