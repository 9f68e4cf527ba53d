SPECIFICATION Spec
CONSTANTS NumVars = 1
          NumTerms = 2
          MaxBody = 3
          MaxRules = 3
          MaxWord = 5
INVARIANTS SameGrammars StackDerives Decides Trees Textbook Halts
CHECK_DEADLOCK FALSE
