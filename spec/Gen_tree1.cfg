SPECIFICATION TreeSpec
VIEW TreeView

CONSTANTS
  Trees = {0}
  Refs = {1}
  Bors = {}
  MaxSize = 99
  MaxLen = 2
  Kinds = {3}
  Sources = {0}
  MayJoin = TRUE
  MaxRuns = 15
  MaxCalls = 99
  MaxTrees = 1
  Lens = {1}
  M = 1
  AnySplit = FALSE
  Splits = {}
  JoinMax = 1
  Conts = {}
  Add <- Add0
  SubL <- SubL0
  SubR <- SubL0
  Lt <- Lt0
  CapOk <- Cap4
  Zero = 0
INVARIANTS TreeOk Refines
CHECK_DEADLOCK FALSE
