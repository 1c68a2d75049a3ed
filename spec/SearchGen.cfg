INIT Init
NEXT Next
CONSTANTS
  MaxLayers = 3
  Emitting = TRUE
