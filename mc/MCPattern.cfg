SPECIFICATION Spec
CONSTANTS MaxWord = 4
          Level = 2
INVARIANTS Agree LongestAgree Bounded
CHECK_DEADLOCK FALSE
