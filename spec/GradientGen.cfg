INIT Init
NEXT Next
INVARIANT Sound
CONSTANT Emitting = TRUE
