SPECIFICATION Spec
CONSTANT MaxGal = 3
INVARIANTS FromOneSet SelectedValue Commutes OwnHalo
CHECK_DEADLOCK FALSE
