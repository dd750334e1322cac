SPECIFICATION Spec
VIEW View
INVARIANT Unique
ACTION_CONSTRAINT EmitT
