SPECIFICATION Spec
CONSTANT MaxWord = 3
INVARIANT Verdict
PROPERTY Halting
CHECK_DEADLOCK FALSE
