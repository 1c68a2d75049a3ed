INIT Init
NEXT Next
INVARIANT LastAssigned Assigning
CONSTANT Emitting = FALSE
