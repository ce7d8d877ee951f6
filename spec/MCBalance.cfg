CONSTANTS
  Calls = {c1, c2}
  MaxTime = 4
  Cfgs <- MCCfgs
INIT MInit
NEXT MNext
INVARIANTS BackOnce AtMostOnce NoEarlyFailure Rotation
