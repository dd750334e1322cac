CONSTANTS PIns = {1, 2}
 MIns = {1, 2}
CONSTANT NoLast = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Once
ACTION_CONSTRAINT EmitS
