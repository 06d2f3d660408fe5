SPECIFICATION Spec
CONSTANT NMass = 4
CONSTANT NTpeak = 2
INVARIANTS MeansMsRange ClippedRange ScatterRange Probabilities AllFinite OwnOnly Flat
PROPERTIES Monotone PeakTime
CHECK_DEADLOCK FALSE
