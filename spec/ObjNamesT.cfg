CONSTANT MaxOff = 7
SPECIFICATION Spec
VIEW View
INVARIANT NegationAgrees
PROPERTY OneSlot
PROPERTY ReadBack
ACTION_CONSTRAINT EmitT
CONSTRAINT Few
