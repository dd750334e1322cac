SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY ReadsArePure
ACTION_CONSTRAINT EmitT
