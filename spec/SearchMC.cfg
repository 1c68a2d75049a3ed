INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS
  MaxLayers = 4
  Emitting = FALSE
INVARIANT Edits
