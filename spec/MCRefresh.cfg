INIT Init
NEXT Next
INVARIANTS OnlyOffered EmptyOnlyIfAllowed NeverEmptied
