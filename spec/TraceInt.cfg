SPECIFICATION TraceSpec
CONSTANTS
  Add <- IntAdd
  SubL <- IntSubL
  SubR <- IntSubL
  Lt <- IntLt
  CapOk <- IntCap
  Zero = 0
  Aspects = {"calls", "content", "runs", "get", "iter", "path", "shape", "ref", "bor", "acct", "bad", "clone"}
CONSTRAINT Progress
INVARIANT ApiInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
