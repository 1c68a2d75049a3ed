INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Emitting = TRUE
CONSTANT Xs = {"a", "b"}
