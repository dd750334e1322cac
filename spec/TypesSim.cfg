SPECIFICATION Spec
CONSTANTS
 Depth = 2
 Picked = {99}
VIEW View
INVARIANT LoadedOk
ACTION_CONSTRAINT EmitT
