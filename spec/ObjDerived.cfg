CONSTANT MaxSeen = 9
SPECIFICATION Spec
VIEW View
INVARIANT TypedReads
INVARIANT SeenSound
PROPERTY ReadsArePure
ACTION_CONSTRAINT EmitT
