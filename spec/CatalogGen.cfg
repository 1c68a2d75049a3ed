INIT Init
NEXT Next
CONSTANTS
 Emitting = TRUE
 Ids = {"1", "2"}
 Some = {"T_circle", "T_blur", "T_group"}
