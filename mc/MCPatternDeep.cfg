SPECIFICATION Spec
CONSTANTS MaxWord = 5
          Level = 3
INVARIANTS Agree LongestAgree Bounded
CHECK_DEADLOCK FALSE
