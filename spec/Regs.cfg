SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
VIEW View
INVARIANT Unique
ACTION_CONSTRAINT EmitT
