INIT Init
NEXT Next
INVARIANT TypeOK
CONSTANTS
  Anims = {"A"}
  Groups = {"g", "h"}
  Leaves = {"x"}
  Emitting = TRUE
  AssignMax = 2
