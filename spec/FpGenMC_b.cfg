SPECIFICATION Spec
CONSTANTS
 MaxP = 3
 MaxRuns = 3
INVARIANTS Covered Distinct OneStep
CHECK_DEADLOCK FALSE
