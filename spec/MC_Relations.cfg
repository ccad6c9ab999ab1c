SPECIFICATION Spec
CONSTANTS
  LineSet <- Lines22
  MaxLines = 2
  Widths <- Wide
CHECK_DEADLOCK FALSE
INVARIANTS
  Quoted
  Rewidth
  Apart
