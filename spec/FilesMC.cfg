INIT Init
NEXT Next
INVARIANT Sane Steps
CONSTANTS
  Anims = {"a", "b"}
  Emitting = FALSE
  MaxEdits = 0
