SPECIFICATION Spec
CONSTANTS
 MaxOps = 2
VIEW View
ACTION_CONSTRAINT EmitT
