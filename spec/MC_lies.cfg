SPECIFICATION Spec
CONSTANTS
  MaxId = 7
  MaxLen = 5
  MarkFirst = TRUE
  ShiftHoles = TRUE
  Refuse = TRUE
  CloneChecks = TRUE
  Lies = TRUE
INVARIANT NoReuse
INVARIANT OnePlace
INVARIANT NoLoss
CHECK_DEADLOCK FALSE
