INIT Init
NEXT Next
INVARIANT Independent
CONSTANTS
 Emitting = FALSE
 Ids = {"1", "2", "3"}
 Some = {"T_circle", "T_blur"}
