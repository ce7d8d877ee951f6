CONSTANTS
  MaxTime = 2000
  Caps = {0, 1, 2}
  Trigger = 2
INIT Init
NEXT Next
INVARIANTS FromOwnKey NegativeBounded CapacityHeld NoDuplicates
