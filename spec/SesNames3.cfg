SPECIFICATION Spec
CONSTANTS
 MaxN = 3
 Repos = {1, 2}
VIEW View
ACTION_CONSTRAINT EmitT
