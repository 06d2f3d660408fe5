SPECIFICATION Spec
CONSTANT MaxGal = 4
INVARIANTS FromOneSet SelectedValue Commutes OwnHalo
CHECK_DEADLOCK FALSE
