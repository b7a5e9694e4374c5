SPECIFICATION Spec
CONSTANTS
  MaxId = 11
  MaxLen = 5
  MarkFirst = TRUE
  ShiftHoles = TRUE
  Refuse = TRUE
  CloneChecks = TRUE
  Lies = FALSE
INVARIANT NoReuse
INVARIANT OnePlace
INVARIANT NoLoss
CHECK_DEADLOCK FALSE
