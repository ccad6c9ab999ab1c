SPECIFICATION Spec
CONSTANTS
  Ids <- FewIds
  Sc <- MCSc
INVARIANTS
  CheckWritesNothing CheckTellsTheTruth FormattedInPlace Failing NothingIsLost InOrder
  RefusedUntouched InputsStay OutputsWritten FilterTouchesNothing WrongTouchesNothing
  OnlySelected InfoTouchesNothing
PROPERTY Terminates
CHECK_DEADLOCK FALSE
