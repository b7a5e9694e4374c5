SPECIFICATION Spec
VIEW StateView
CONSTANTS
  Trees = {0, 1, 2}
  Refs = {}
  Bors = {}
  MaxSize = 3
  MaxLen = 2
  Kinds = {0, 1}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 4
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap0
  Zero = 0
INVARIANTS ApiInv ContentIsSpliced PiecesDecide 
PROPERTIES Isolated FreedWithLast
CHECK_DEADLOCK FALSE
