SPECIFICATION Spec
CONSTANT MaxLen = 3
CONSTANT Longer = 6
INVARIANT Agree
CHECK_DEADLOCK FALSE
