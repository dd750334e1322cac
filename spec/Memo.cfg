CONSTANTS PIns = {1}
 MIns = {2}
CONSTANT NoLast = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Once
ACTION_CONSTRAINT EmitT
