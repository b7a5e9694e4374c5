SPECIFICATION TraceSpec
CONSTANTS
  Add <- GMul
  SubL <- HeSubL
  SubR <- HeSubR
  Lt <- HeLt
  CapOk <- HeCap
  Zero <- HeZero
  Aspects = {"calls", "content", "runs", "get", "iter", "path", "shape", "ref", "bor", "acct", "bad", "clone"}
CONSTRAINT Progress
INVARIANT ApiInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
