SPECIFICATION Spec
CONSTANTS MaxWord = 5
          NumPats = 3
INVARIANTS ReturnsRight Conserved Starts
CHECK_DEADLOCK FALSE
