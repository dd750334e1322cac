SPECIFICATION Spec
CONSTANTS
 MaxObjs = 7
 IntKeys = {0, 1, 2, 4, 5}
INVARIANT Unique
INVARIANT Assigned
PROPERTY OneRepo
PROPERTY NoLoss
