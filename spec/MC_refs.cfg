SPECIFICATION Spec
VIEW StateView
CONSTANTS
  Trees = {0}
  Refs = {0, 1}
  Bors = {0, 1}
  MaxSize = 4
  MaxLen = 2
  Kinds = {0, 1}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 3
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap0
  Zero = 0
INVARIANTS ApiInv ContentIsSpliced RefsFollow BorrowedStays
PROPERTIES BlockedChangesNothing FreedWithLast
CHECK_DEADLOCK FALSE
