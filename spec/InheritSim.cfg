SPECIFICATION Spec
CONSTANT MaxClasses = 5
INVARIANT Grows
