CONSTANTS
  Callers = {c1, c2, c3, c4}
  Keys = {k1, k2}
  Outs = {o1, o2}
SPECIFICATION Spec
INVARIANTS OneLookupPerKey OnlyEqualKeysShare
PROPERTY EverybodyReturns
