SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Longer = 7
INVARIANT Agree
CHECK_DEADLOCK FALSE
