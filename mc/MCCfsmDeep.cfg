SPECIFICATION Spec
CONSTANTS NumVars = 2
          NumTerms = 1
          MaxBody = 2
          MaxRules = 2
INVARIANTS Numbered Canonical
CHECK_DEADLOCK FALSE
