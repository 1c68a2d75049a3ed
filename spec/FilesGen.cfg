INIT Init
NEXT Next
INVARIANT Sane
CONSTANTS
  Anims = {"a"}
  Emitting = TRUE
  MaxEdits = 0
