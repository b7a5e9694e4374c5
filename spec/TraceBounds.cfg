SPECIFICATION Spec
CONSTANT NVals = 4
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
