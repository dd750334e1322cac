SPECIFICATION Spec
VIEW View
INVARIANT DefaultIntact
INVARIANT GivenWins
INVARIANT Lossless
ACTION_CONSTRAINT EmitT
