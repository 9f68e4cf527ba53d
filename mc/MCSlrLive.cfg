SPECIFICATION Spec
CONSTANTS NumVars = 1
          NumTerms = 2
          MaxBody = 2
          MaxRules = 2
          MaxWord = 3
PROPERTIES Halting
CHECK_DEADLOCK FALSE
