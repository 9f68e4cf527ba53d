SPECIFICATION Spec
CONSTANTS NumVars = 2
          NumTerms = 1
          MaxBody = 2
          MaxRules = 2
INVARIANTS Right Sound
CHECK_DEADLOCK FALSE
