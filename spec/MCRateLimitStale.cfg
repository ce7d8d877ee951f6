CONSTANTS
  Calls = {c1, c2, c3, c4, c5}
  Nets = {n1, n2}
  N = 2
  MaxWindow = 3
INIT Init
NEXT NextStale
INVARIANTS AtMostN
