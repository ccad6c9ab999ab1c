SPECIFICATION Spec
CONSTANTS
  Threads <- MCThreads
  Calls <- MCCalls
  Shared = FALSE
INVARIANTS NothingElse Everything Untouched
PROPERTY Ends
CHECK_DEADLOCK FALSE
