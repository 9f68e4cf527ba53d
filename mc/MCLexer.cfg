SPECIFICATION Spec
CONSTANTS MaxWord = 4
          NumPats = 2
INVARIANTS ReturnsRight Conserved Starts
CHECK_DEADLOCK FALSE
