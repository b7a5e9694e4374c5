SPECIFICATION Spec
VIEW View
CONSTANTS
  Add <- Add0
  SubL <- Sub0
  SubR <- Sub0
  Lt <- Lt0
  Zero = 0
  M = 1
  AnySplit = FALSE
  MaxRuns = 7
  Lens = {2}
  Splits = {1}
  Hows = {"none", "left", "right"}
  Joins = {}
INVARIANT TreeInv
PROPERTY OneWay
CHECK_DEADLOCK FALSE
