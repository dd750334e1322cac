SPECIFICATION Spec
CONSTANTS
 MaxChains = 4
 Keys = {"a", "b", "c"}
 Ops = 16
INVARIANT Once
INVARIANT SameKeys
INVARIANT FirstWins
