SPECIFICATION Spec
CONSTANTS NumVars = 3
          NumTerms = 1
          MaxBody = 2
          MaxRules = 1
INVARIANTS Right Sound
CHECK_DEADLOCK FALSE
