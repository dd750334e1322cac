SPECIFICATION Spec
VIEW View
INVARIANT Complement
INVARIANT Commutes
ACTION_CONSTRAINT EmitT
