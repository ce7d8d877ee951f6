INIT Init
NEXT Next
INVARIANTS OnceOnly NoCallUnlessServed DropIsSilent Completable
