SPECIFICATION GenSpec
VIEW GenView
CONSTANTS
  Trees = {0}
  Refs = {}
  Bors = {}
  MaxSize = 4
  MaxLen = 2
  Kinds = {0, 1, 2}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 4
  MaxCalls = 9
  MaxTrees = 1
  Lens = {}
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap4
  Zero = 0
CHECK_DEADLOCK FALSE
