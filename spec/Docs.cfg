SPECIFICATION Spec
CONSTANTS
 Uris = {1, 2, 3}
 Versions = {1, 2, 3}
VIEW View
INVARIANT Compose
INVARIANT Local
ACTION_CONSTRAINT EmitT
