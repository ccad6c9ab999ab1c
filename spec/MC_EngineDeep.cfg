SPECIFICATION Spec
CONSTANTS
  LineSet <- Lines22
  MaxLines = 3
  Widths <- Wide
CHECK_DEADLOCK FALSE
INVARIANTS
  Quoted
  Rewidth
  Apart
  Partition
  Progress
  Computes
  Prefix
  Stable
  Accepted
  Theorems
  Tidy
PROPERTIES
  Terminates
