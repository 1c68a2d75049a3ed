INIT Init
NEXT Next
INVARIANT TypeOK
CONSTANTS
  Targets = {"c"}
  Attached = {}
  Emitting = TRUE
  MaxWp = 3
