INIT Init
NEXT Next
INVARIANT Safe Live
