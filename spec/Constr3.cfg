SPECIFICATION Spec
CONSTANTS
 MaxCl = 3
 Places = {"prop", "item", "def", "sub"}
VIEW View
INVARIANT Monotone
INVARIANT ReadFits
ACTION_CONSTRAINT EmitT
