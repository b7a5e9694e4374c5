SPECIFICATION Spec
VIEW View
CONSTANTS
  Add <- HAdd
  SubL <- HSubL
  SubR <- HSubR
  Lt <- HLt
  Zero <- HZero
  M = 1
  AnySplit = FALSE
  MaxRuns = 4
  Lens <- HLens2
  Splits <- HSplits2
  Hows = {"none", "left", "right"}
  Joins <- HLens2
INVARIANT TreeInv
PROPERTY OneWay
CHECK_DEADLOCK FALSE
