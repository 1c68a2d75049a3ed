INIT Init
NEXT Next
INVARIANT TypeOK Steps
CONSTANTS
  Anims = {"A"}
  Groups = {"g", "h"}
  Leaves = {"x", "y"}
  Emitting = FALSE
  AssignMax = 2
