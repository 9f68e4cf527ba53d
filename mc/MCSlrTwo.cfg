SPECIFICATION Spec
CONSTANTS NumVars = 2
          NumTerms = 1
          MaxBody = 2
          MaxRules = 2
          MaxWord = 5
INVARIANTS SameGrammars StackDerives Decides Trees Textbook Halts
CHECK_DEADLOCK FALSE
