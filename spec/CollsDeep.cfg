CONSTANT Deep = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Idem Sorted
ACTION_CONSTRAINT EmitT
