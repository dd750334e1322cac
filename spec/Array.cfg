CONSTANT MaxLen = 3
CONSTANT ItemVals <- VQ
CONSTANT Full = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT EagerValid
INVARIANT CacheSound
PROPERTY RefusedUnchanged
PROPERTY ReadsArePure
ACTION_CONSTRAINT EmitT
