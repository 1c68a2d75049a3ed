INIT Init
NEXT Next
CONSTANTS Emitting = TRUE
