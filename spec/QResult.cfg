CONSTANTS
 Slots = {1, 2}
 MaxOps = 2
 Kinds = {"stream"}
SPECIFICATION Spec
VIEW View
INVARIANT Sorted
INVARIANT Once
PROPERTY LooksArePure
PROPERTY Others
ACTION_CONSTRAINT EmitT
