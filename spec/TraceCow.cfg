SPECIFICATION CowSpec
CONSTANTS
  Add <- IntAdd
  SubL <- IntSubL
  SubR <- IntSubL
  Lt <- IntLt
  CapOk <- IntCap
  Zero = 0
  Aspects = {"content", "runs", "get", "acct", "fault", "clone"}
CONSTRAINT Progress
INVARIANT ApiInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
