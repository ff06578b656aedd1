SPECIFICATION Spec
CONSTANTS
    Width = 3
    Height = 3
    Most = 6
INVARIANTS Cuttable Reversible Export
CHECK_DEADLOCK FALSE
