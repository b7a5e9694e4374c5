SPECIFICATION AllSpec

CONSTANTS
  Trees = {0, 1, 2}
  Refs = {}
  Bors = {}
  MaxSize = 99
  MaxLen = 1
  Kinds = {3}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 99
  MaxCalls = 8
  MaxTrees = 2
  Lens = {1}
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap4
  Zero = 0
CHECK_DEADLOCK FALSE
