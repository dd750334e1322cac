SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitT
PROPERTY Stays
