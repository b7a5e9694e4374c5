SPECIFICATION Spec
VIEW StateView
CONSTANTS
  Trees = {0}
  Refs = {}
  Bors = {}
  MaxSize = 4
  MaxLen = 2
  Kinds = {0, 1, 2}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 4
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap0
  Zero = 0
INVARIANTS ApiInv ContentIsSpliced CappedStay LookupIsRight IterationIsRight
CHECK_DEADLOCK FALSE
