SPECIFICATION Spec
CONSTANTS
 MaxN = 6
 Names = {"a", "b"}
 Lazy = {TRUE, FALSE}
 Der = {TRUE, FALSE}
 MaxKs = 3
INVARIANT Acyclic
INVARIANT HeldHasParent
INVARIANT OneTree
INVARIANT NameIsPath
