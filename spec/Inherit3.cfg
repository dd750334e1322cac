SPECIFICATION Spec
CONSTANT MaxClasses = 3
VIEW View
INVARIANT Grows
PROPERTY OthersKeep
ACTION_CONSTRAINT EmitT
