CONSTANTS N = 2
Callers = {1, 2, 3, 4}
GiveBack = TRUE
SPECIFICATION Spec
INVARIANT Limit Capacity
PROPERTY EveryoneServed
