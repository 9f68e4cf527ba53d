SPECIFICATION Spec
CONSTANTS NumVars = 1
          NumTerms = 2
          MaxBody = 2
          MaxRules = 3
          MaxWord = 4
INVARIANTS SameGrammars StackDerives Decides Trees Textbook Halts
CHECK_DEADLOCK FALSE
