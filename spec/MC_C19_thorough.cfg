SPECIFICATION Spec
CONSTANT NMass = 11
CONSTANT NTpeak = 4
INVARIANTS MeansMsRange ClippedRange ScatterRange Probabilities AllFinite OwnOnly Flat
PROPERTIES Monotone PeakTime
CHECK_DEADLOCK FALSE
