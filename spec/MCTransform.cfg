INIT Init
NEXT Next
INVARIANT Safe One
