INIT Init
NEXT Next
INVARIANT Laws Other
CONSTANT Emitting = TRUE
