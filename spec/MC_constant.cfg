SPECIFICATION Spec
VIEW StateView
CONSTANTS
  Trees = {0}
  Refs = {}
  Bors = {}
  MaxSize = 8
  MaxLen = 3
  Kinds = {0}
  Sources = {0, 1, 2}
  MayJoin = TRUE
  MaxRuns = 8
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap0
  Zero = 0
INVARIANTS ApiInv ContentIsSpliced Canonical OneJoinAtEdges LookupIsRight
CHECK_DEADLOCK FALSE
