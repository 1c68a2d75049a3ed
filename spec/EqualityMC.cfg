INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Emitting = FALSE
CONSTANT Xs = {"a", "b", "c"}
