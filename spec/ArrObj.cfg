CONSTANT MaxLen = 2
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT HeldAgrees
ACTION_CONSTRAINT EmitT
