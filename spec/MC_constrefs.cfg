SPECIFICATION Spec
VIEW StateView
CONSTANTS
  Trees = {0}
  Refs = {0, 1}
  Bors = {}
  MaxSize = 7
  MaxLen = 2
  Kinds = {0}
  Sources = {0, 1}
  MayJoin = TRUE
  MaxRuns = 7
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap0
  Zero = 0
INVARIANTS ApiInv ContentIsSpliced Canonical OneJoinAtEdges RefsFollow
PROPERTIES FreedWithLast
CHECK_DEADLOCK FALSE
