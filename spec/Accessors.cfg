SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
ACTION_CONSTRAINT EmitT
