SPECIFICATION Spec
VIEW View
INVARIANT Kind
ACTION_CONSTRAINT EmitT
