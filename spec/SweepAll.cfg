SPECIFICATION Spec
CONSTANTS MaxMinima = 2
          MaxMeets = 1
          MaxBounds = 4
          Kinds = {0, 1}
          Flats = {FALSE, TRUE}
          Groups = {2, 3}
          Runs = {0}
INVARIANTS Consistent Export
CHECK_DEADLOCK FALSE
