INIT Init
NEXT Next
INVARIANT Sound Laws
CONSTANT Emitting = FALSE
