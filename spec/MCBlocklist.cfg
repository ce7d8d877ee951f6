INIT Init
NEXT Next
INVARIANTS OrderFree Monotone SubIsUnion SubMode
