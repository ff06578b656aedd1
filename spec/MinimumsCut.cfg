SPECIFICATION Spec
CONSTANTS
    Width = 3
    Height = 3
    Most = 5
INVARIANTS Cuttable Reversible Export
CHECK_DEADLOCK FALSE
