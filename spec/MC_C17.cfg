SPECIFICATION Spec
INVARIANTS ProbRange CentralsOnly SatellitesNotCentral FlagIsCoin InBounds NeverQuenched EarlyTimesUntouched
CHECK_DEADLOCK FALSE
