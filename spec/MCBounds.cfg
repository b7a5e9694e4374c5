SPECIFICATION Spec
CONSTANT NVals = 5
INVARIANTS EmptyIsDecided OverlapIsDecided Symmetric ContainedMeansNotEmpty OverlapsItself
PROPERTY Monotone
CHECK_DEADLOCK FALSE
