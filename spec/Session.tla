------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A session is a history of calls made by one process.  The only state    *)
(* which the outside can see is what was answered so far: `memo` maps the  *)
(* identity of a call (function, content and form of its arguments) to its *)
(* answer, a value or the kind of error raised.  A pure library never      *)
(* contradicts the memo, and changes neither its arguments nor anything    *)
(* else that a later call may depend upon (defaults, global settings).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Knows(memo, key) == key \in DOMAIN memo
Learn(memo, key, answer) == IF Knows(memo, key) THEN memo ELSE [k \in DOMAIN memo \cup {key} |-> IF k = key THEN answer ELSE memo[k]]
Contradicts(memo, key, answer) == Knows(memo, key) /\ memo[key] # answer
=============================================================================
