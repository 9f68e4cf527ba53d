SPECIFICATION Spec
CONSTANTS NumVars = 1
          NumTerms = 2
          MaxBody = 2
          MaxRules = 3
INVARIANTS Numbered Canonical
CHECK_DEADLOCK FALSE
