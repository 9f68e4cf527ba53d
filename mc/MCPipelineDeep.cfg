SPECIFICATION Spec
CONSTANT MaxWord = 6
INVARIANT Verdict
CHECK_DEADLOCK FALSE
