CONSTANTS
 C = {1, 2}
 K = {1, 2}
 IDs = {10, 11}
 MaxNow = 3
INIT Init
NEXT Next
INVARIANTS Allowed DistinctIDs OwnAnswer InTime Live
