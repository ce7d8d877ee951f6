INIT Init
NEXT Next
INVARIANTS InvertIsComplement FirstWins LaterRoutesIrrelevant
