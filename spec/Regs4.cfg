SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
VIEW View
INVARIANT Unique
ACTION_CONSTRAINT EmitT
