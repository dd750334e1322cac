SPECIFICATION Spec
VIEW View
INVARIANT OwnWins
ACTION_CONSTRAINT EmitT
