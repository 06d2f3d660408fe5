------------------------------ MODULE Trace_C30 ------------------------------
EXTENDS TraceBase, Store
\* every field item by item (an item is held as text, digit by digit)
Back(e) ==
    Then(Cl("tuples", Len(e.back) = Len(e.saved)),
    Then(Cl("lengths", \A t \in 1..Len(e.saved) : Len(e.back[t]) = Len(e.saved[t])),
         Cl("fields", \A t \in 1..Len(e.saved) : \A k \in 1..Len(e.saved[t]) : e.back[t][k] = e.saved[t][k])
         \cup Cl("types", \A t \in 1..Len(e.saved) : \A k \in 1..Len(e.saved[t]) : e.savedtypes[t][k] = e.backtypes[t][k])))
\* the file names every item of a tuple by its place
Labels(e) ==
    Then(Cl("groups", e.groups = GROUPS),
    Then(Cl("names", \A t \in 1..3 : RangeOf(e.names[t]) = RangeOf(NAMES[t])),
         Cl("labelled", \A t \in 1..3 : \A d \in RangeOf(e.first[t]) :
                \E k \in 1..Len(NAMES[t]) : NAMES[t][k] = d.name /\ e.saved[t][k] = d.items)))
Check(e) ==
    CASE e.op = "load" -> IF Has(e, "exc") THEN Raised(e) ELSE Back(e)
      [] e.op = "labels" -> IF Has(e, "exc") THEN Raised(e) ELSE Labels(e)
      [] e.op = "kept" -> Cl("input_unchanged", e.before = e.after)
      [] e.op = "refuse" -> Cl("refuses_wrong_length", Has(e, "exc") /\ e.exc = "ValueError")
      [] e.op = "script" -> Cl("script_files", e.made = <<10, 100>> /\ Len(e.files) = 2)
      [] OTHER -> {"unexplained"}
TInv == Report(l, Check(Trace[l]))
=============================================================================
