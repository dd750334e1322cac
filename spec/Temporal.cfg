SPECIFICATION Spec
VIEW View
INVARIANT Valid
INVARIANT Lossless
ACTION_CONSTRAINT EmitT
