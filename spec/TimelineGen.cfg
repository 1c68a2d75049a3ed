INIT Init
NEXT Next
INVARIANT TypeOK
CONSTANTS
  Targets = {"a"}
  Attached = {"a"}
  Emitting = TRUE
  MaxWp = 4
