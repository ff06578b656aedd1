SPECIFICATION Spec
CONSTANTS MaxBounds = 8
          Rows <- AllRows
INVARIANTS CountersMeanWindings OnExactlyAtTheBoundary EndsAgree Closed
CHECK_DEADLOCK FALSE
