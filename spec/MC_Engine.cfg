SPECIFICATION Spec
CONSTANTS
  LineSet <- Lines22
  MaxLines = 2
  Widths <- Wide
CHECK_DEADLOCK FALSE
INVARIANTS
  Partition
  Progress
  Computes
  Prefix
  Stable
  Accepted
  Theorems
  Tidy
PROPERTIES
  Terminates
