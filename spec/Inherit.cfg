SPECIFICATION Spec
CONSTANT MaxClasses = 2
VIEW View
INVARIANT Grows
PROPERTY OthersKeep
ACTION_CONSTRAINT EmitT
