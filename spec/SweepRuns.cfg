SPECIFICATION Spec
CONSTANTS MaxBounds = 4
          MaxSteps = 4
          EveryLength = TRUE
INVARIANTS Export
CHECK_DEADLOCK FALSE
