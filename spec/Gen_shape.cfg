SPECIFICATION AllSpec

CONSTANTS
  Trees = {0}
  Refs = {1, 2, 3, 4, 5, 6, 7}
  Bors = {}
  MaxSize = 99
  MaxLen = 1
  Kinds = {3}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 99
  MaxCalls = 8
  MaxTrees = 1
  Lens = {1}
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap4
  Zero = 0
CHECK_DEADLOCK FALSE
