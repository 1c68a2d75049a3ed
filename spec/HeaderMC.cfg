INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Emitting = FALSE
