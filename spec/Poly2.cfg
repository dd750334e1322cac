SPECIFICATION Spec
CONSTANT Most = 2
VIEW View
INVARIANT OfDeclared
INVARIANT Writable
ACTION_CONSTRAINT EmitT
