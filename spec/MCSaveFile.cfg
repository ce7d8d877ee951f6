CONSTANTS WithSync = TRUE
OwnNames = TRUE
WithMode = TRUE
INIT Init
NEXT Next
INVARIANT Safe Clean
