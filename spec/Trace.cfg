INIT TInit
NEXT TNext
INVARIANT Conforms
