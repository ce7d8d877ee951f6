CONSTANTS
  Calls = {c1, c2}
  MaxTime = 3
  Cfgs <- MCCfgs
INIT MInit
NEXT MNext
INVARIANTS BoundedAttempts SoloInOrder SoloExhausts BackOnTime NeverLate FirstUsable
