CONSTANTS Clients = {1, 2}
Close = TRUE
INIT Init
NEXT Next
INVARIANT Accepts NoLeak OnlyAllowed
