SPECIFICATION SpecRandom
CONSTANTS MaxMinima = 4
          MaxMeets = 5
          MaxBounds = 8
          Kinds = {0, 1}
          Flats = {FALSE, TRUE}
          Groups = {2, 3}
          Runs = {0, 2}
INVARIANTS Export
CHECK_DEADLOCK FALSE
