SPECIFICATION Spec
CONSTANTS MaxBounds = 6
          Rows <- AllRows
INVARIANTS CountersMeanWindings OnExactlyAtTheBoundary EndsAgree Closed
CHECK_DEADLOCK FALSE
