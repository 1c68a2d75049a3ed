INIT Init
NEXT Next
INVARIANT TypeOK Steps
CONSTANTS
  Targets = {"a", "c"}
  Attached = {"a"}
  Emitting = FALSE
  MaxWp = 2
