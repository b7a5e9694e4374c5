SPECIFICATION GenSpec
VIEW GenView
CONSTANTS
  Trees = {0}
  Refs = {0, 1}
  Bors = {0}
  MaxSize = 3
  MaxLen = 2
  Kinds = {0, 1}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 3
  MaxCalls = 9
  MaxTrees = 1
  Lens = {}
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap4
  Zero = 0
CHECK_DEADLOCK FALSE
