SPECIFICATION Spec
CONSTANTS
 MaxN = 2
 Names = {"a", "b"}
 Lazy = {TRUE, FALSE}
 Der = {TRUE}
 MaxKs = 1
VIEW View
INVARIANT Acyclic
INVARIANT HeldHasParent
INVARIANT OneTree
INVARIANT NameIsPath
ACTION_CONSTRAINT EmitT
