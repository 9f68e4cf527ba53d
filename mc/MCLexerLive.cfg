SPECIFICATION Spec
CONSTANTS MaxWord = 3
          NumPats = 1
INVARIANTS ReturnsRight Conserved Starts
PROPERTIES Ends2
CHECK_DEADLOCK FALSE
