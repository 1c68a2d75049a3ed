INIT Init
NEXT Next
INVARIANT LastAssigned
CONSTANT Emitting = TRUE
