SPECIFICATION SpecRandom
CONSTANTS MaxBounds = 12
          MaxSteps = 40
          EveryLength = FALSE
INVARIANTS Export
CHECK_DEADLOCK FALSE
