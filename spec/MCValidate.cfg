CONSTANTS
  Star = 0
  Delegations = TRUE
  Wildcards = TRUE
  Final = TRUE
INIT Init
NEXT Next
INVARIANT Sound
