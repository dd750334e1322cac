SPECIFICATION Spec
CONSTANTS
 MaxEnts = 1
 MaxSet = 1
 KeyKinds = {"int", "text", "pair", "day", "mix"}
VIEW View
INVARIANT Sound
INVARIANT Complete
ACTION_CONSTRAINT EmitT
