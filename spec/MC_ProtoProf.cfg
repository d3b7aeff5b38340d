CONSTANTS Kind = "profiler" Depth = 6
SPECIFICATION Spec
INVARIANTS Consistent Files Recorded Timers Emit
PROPERTIES NeverLost Refused
