SPECIFICATION Spec
CONSTANT Most = 6
VIEW View
INVARIANT OfDeclared
INVARIANT Writable
ACTION_CONSTRAINT EmitT
