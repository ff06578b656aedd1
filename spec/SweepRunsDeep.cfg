SPECIFICATION Spec
CONSTANTS MaxBounds = 6
          MaxSteps = 5
          EveryLength = TRUE
INVARIANTS Export
CHECK_DEADLOCK FALSE
