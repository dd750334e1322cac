SPECIFICATION Spec
VIEW View
INVARIANT NotCalled
ACTION_CONSTRAINT EmitT
