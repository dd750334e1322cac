SPECIFICATION Spec
CONSTANT Most = 1
VIEW View
INVARIANT OfDeclared
INVARIANT Writable
ACTION_CONSTRAINT EmitT
