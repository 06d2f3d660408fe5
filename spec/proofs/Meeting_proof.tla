---------------------------- MODULE Meeting_proof ----------------------------
EXTENDS Meeting, TLAPS
ASSUME Some == First \in Ranks /\ V \in Nat /\ V > 0
Types == /\ wrote \in [Ranks -> Nat] /\ met \in [Ranks -> Nat]
         /\ read \in Nat /\ gone \in Nat /\ torn \in BOOLEAN
Inv == /\ Types
       /\ \A r \in Ranks : met[r] <= wrote[r] /\ wrote[r] <= V
       /\ \A r, q \in Ranks : wrote[r] <= met[q] + 1
       /\ gone <= read /\ read <= met[First] /\ read <= gone + 1
       /\ ~torn

THEOREM Initially == Init => Inv
  BY Some DEF Init, Inv, Types
THEOREM Step == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <1> USE Some
  <1>0. \A q \in Ranks : met[q] \in Nat /\ wrote[q] \in Nat BY DEF Inv, Types
  <1>1. ASSUME NEW r \in Ranks, Write(r) PROVE Inv'
    <2>1. Types' BY <1>1 DEF Write, Inv, Types
    <2>2. \A q \in Ranks : wrote'[q] = IF q = r THEN wrote[q] + 1 ELSE wrote[q] BY <1>1 DEF Write, Inv, Types
    <2>3. UNCHANGED <<met, read, gone, torn>> /\ wrote[r] = met[r] /\ wrote[r] < V /\ All(r) BY <1>1 DEF Write
    <2>4. \A q \in Ranks : met[q] <= wrote'[q] /\ wrote'[q] <= V
      BY <2>2, <2>3, <1>0 DEF Inv
    <2>5. \A p, q \in Ranks : wrote'[p] <= met[q] + 1 BY <2>2, <2>3, <1>0 DEF Inv, All
    <2> QED BY <2>1, <2>3, <2>4, <2>5 DEF Inv
  <1>2. ASSUME NEW r \in Ranks, Arrive(r) PROVE Inv'
    <2>1. Types' BY <1>2 DEF Arrive, Inv, Types
    <2>2. \A q \in Ranks : met'[q] = IF q = r THEN met[q] + 1 ELSE met[q] BY <1>2 DEF Arrive, Inv, Types
    <2>3. UNCHANGED <<wrote, read, gone, torn>> /\ met[r] < wrote[r] BY <1>2 DEF Arrive
    <2>4. \A q \in Ranks : met'[q] <= wrote[q] /\ wrote[q] <= V BY <2>2, <2>3, <1>0 DEF Inv
    <2>5. \A p, q \in Ranks : wrote[p] <= met'[q] + 1 BY <2>2, <1>0 DEF Inv
    <2>6. read <= met'[First] BY <2>2, <1>0 DEF Inv, Types
    <2> QED BY <2>1, <2>3, <2>4, <2>5, <2>6 DEF Inv
  <1>3. ASSUME Collate PROVE Inv'
    <2>1. Types' BY <1>3 DEF Collate, Inv, Types
    <2>2. UNCHANGED <<wrote, met, gone>> /\ read < met[First] /\ read = gone /\ read' = read + 1 /\ All(First) BY <1>3 DEF Collate
    <2>3. ASSUME NEW q \in Ranks PROVE wrote[q] >= read + 1
      <3>1. met[First] <= met[q] /\ met[q] <= wrote[q] BY <2>2, <1>0 DEF Inv, All
      <3>2. read \in Nat BY DEF Inv, Types
      <3> QED BY <2>2, <3>1, <3>2, <1>0
    <2>4. ~torn' BY <1>3, <2>3, <1>0 DEF Collate, Inv, Types
    <2>5. gone <= read' /\ read' <= met[First] /\ read' <= gone + 1 BY <2>2, <1>0 DEF Inv, Types
    <2> QED BY <2>1, <2>2, <2>4, <2>5 DEF Inv
  <1>4. ASSUME Remove PROVE Inv'
    <2>1. Types' BY <1>4 DEF Remove, Inv, Types
    <2> QED BY <1>4, <2>1, <1>0 DEF Remove, Inv, Types
  <1>5. ASSUME UNCHANGED vars PROVE Inv'
    BY <1>5 DEF vars, Inv, Types
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next
THEOREM Safe == Inv => NeverTorn /\ NothingLost /\ Together
  <1> SUFFICES ASSUME Inv PROVE NeverTorn /\ NothingLost /\ Together
    OBVIOUS
  <1>1. \A q \in Ranks : met[q] \in Nat /\ wrote[q] \in Nat BY DEF Inv, Types
  <1>2. ASSUME NEW r \in Ranks, NEW q \in Ranks PROVE met[r] <= met[q] + 1
    <2>1. met[r] <= wrote[r] /\ wrote[r] <= met[q] + 1 BY DEF Inv
    <2> QED BY <2>1, <1>1
  <1> QED BY <1>2 DEF Inv, NeverTorn, NothingLost, Together
THEOREM Always == Spec => [](NeverTorn /\ NothingLost /\ Together)
  BY Initially, Step, Safe, PTL DEF Spec
=============================================================================
