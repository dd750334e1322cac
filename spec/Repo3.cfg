SPECIFICATION Spec
CONSTANTS
 MaxObjs = 3
 IntKeys = {0, 1}
VIEW View
INVARIANT Unique
INVARIANT Assigned
PROPERTY OneRepo
PROPERTY NoLoss
ACTION_CONSTRAINT EmitT
