SPECIFICATION Spec
CONSTANTS
 Slots = {1, 2, 3}
 MaxOps = 14
 Kinds = {"list", "stream", "tuple", "instances"}
INVARIANT Sorted
INVARIANT Once
