SPECIFICATION GenSpec
VIEW GenView
CONSTANTS
  Trees = {0, 1}
  Refs = {}
  Bors = {}
  MaxSize = 3
  MaxLen = 2
  Kinds = {0, 1}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 3
  MaxCalls = 9
  MaxTrees = 2
  Lens = {}
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap4
  Zero = 0
CHECK_DEADLOCK FALSE
