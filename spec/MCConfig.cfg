CONSTANTS
  CheckCycle = TRUE
  AllRefs = TRUE
INIT MInit
NEXT MNext
INVARIANTS Wired Right Ends
