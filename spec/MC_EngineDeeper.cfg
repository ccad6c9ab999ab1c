SPECIFICATION Spec
CONSTANTS
  LineSet <- Lines12
  MaxLines = 4
  Widths <- Wide
CHECK_DEADLOCK FALSE
INVARIANTS
  Quoted
  Rewidth
  Apart
  Partition
  Progress
  Computes
  Prefix
  Stable
  Accepted
  Theorems
  Tidy
PROPERTIES
  Terminates
