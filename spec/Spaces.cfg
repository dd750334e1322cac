SPECIFICATION Spec
CONSTANTS
 MaxNames = 1
 Given = {"al", "al.pha"}
VIEW View
INVARIANT Unique
INVARIANT CurKnown
INVARIANT Injective
ACTION_CONSTRAINT EmitT
