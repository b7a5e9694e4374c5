SPECIFICATION PSpec
CONSTANTS
  Add <- IntAdd
  SubL <- IntSubL
  SubR <- IntSubL
  Lt <- IntLt
  CapOk <- IntCap
  Zero = 0
  Aspects = {"content"}
CONSTRAINT Progress
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
