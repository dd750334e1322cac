SPECIFICATION Spec
CONSTANTS
 MaxN = 2
 Repos = {1, 2}
VIEW View
ACTION_CONSTRAINT EmitT
