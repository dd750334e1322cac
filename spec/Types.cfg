SPECIFICATION Spec
CONSTANTS
 Depth = 2
 Picked = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
VIEW View
INVARIANT LoadedOk
ACTION_CONSTRAINT EmitT
