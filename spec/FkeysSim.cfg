SPECIFICATION Spec
CONSTANTS
 MaxEnts = 4
 MaxSet = 9
 KeyKinds = {"int", "text", "pair", "day", "mix"}
INVARIANT Sound
INVARIANT Complete
