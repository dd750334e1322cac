CONSTANT MaxLen = 2
CONSTANT MaxSeen = 1
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY ReadsArePure
ACTION_CONSTRAINT EmitT
