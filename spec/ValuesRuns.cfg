SPECIFICATION Spec
CONSTANTS MaxSteps = 14
          MaxValues = 12
INVARIANTS Export
PROPERTIES Apart
CHECK_DEADLOCK FALSE
