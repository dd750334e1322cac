SPECIFICATION Spec
CONSTANTS
 MaxNames = 2
 Given = {"al"}
VIEW View
INVARIANT Unique
INVARIANT CurKnown
INVARIANT Injective
ACTION_CONSTRAINT EmitT
