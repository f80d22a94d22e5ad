SPECIFICATION Spec
CONSTANTS
 MaxP = 2
 MaxRuns = 3
INVARIANTS Covered Distinct OneStep
CHECK_DEADLOCK FALSE
