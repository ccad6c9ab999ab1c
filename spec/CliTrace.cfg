SPECIFICATION TSpec
CONSTANTS
  Ids <- CaseIds
  Sc <- CaseSc
CHECK_DEADLOCK FALSE
