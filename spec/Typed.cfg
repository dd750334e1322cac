SPECIFICATION Spec
VIEW View
INVARIANT WellTyped
ACTION_CONSTRAINT EmitT
