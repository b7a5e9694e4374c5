SPECIFICATION PSpec
CONSTANTS
  Add <- GMul
  SubL <- HeSubL
  SubR <- HeSubR
  Lt <- HeLt
  CapOk <- HeCap
  Zero <- HeZero
  Aspects = {"content"}
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
