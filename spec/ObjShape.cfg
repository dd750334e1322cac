SPECIFICATION Spec
VIEW View
INVARIANT RequiredStays
INVARIANT NothingForbidden
INVARIANT BoundedVals
PROPERTY ReadOnlyStays
ACTION_CONSTRAINT EmitT
