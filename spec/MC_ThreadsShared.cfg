SPECIFICATION Spec
CONSTANTS
  Threads <- MCThreads
  Calls <- MCCalls
  Shared = TRUE
INVARIANTS NothingElse Everything Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
