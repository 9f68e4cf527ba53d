SPECIFICATION Spec
CONSTANTS NumVars = 2
          NumTerms = 1
          MaxBody = 2
          MaxRules = 1
PROPERTIES Halting
CHECK_DEADLOCK FALSE
