CONSTANT MaxDepth = 3
SPECIFICATION Spec
VIEW View
INVARIANT Home
ACTION_CONSTRAINT EmitT
