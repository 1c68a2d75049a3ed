INIT Init
NEXT Next
INVARIANT Typed
