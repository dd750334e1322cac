SPECIFICATION Spec
CONSTANTS
 MaxChains = 2
 Keys = {"a", "c"}
 Ops = 3
VIEW View
INVARIANT Once
INVARIANT SameKeys
INVARIANT FirstWins
ACTION_CONSTRAINT EmitT
