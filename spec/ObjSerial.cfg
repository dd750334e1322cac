CONSTANTS
 Excludes = {{}, {"r"}, {"d", "k"}, {"al"}, {"x", "z"}, {"ng", "e"}, {"ro"}}
 Onlys = {{}, {"d"}, {"r", "k"}, {"al", "d"}, {"m", "o"}, {"ng", "e", "ro"}, {"ns", "r"}}
SPECIFICATION Spec
VIEW View
INVARIANT NothingHidden
INVARIANT Complete
PROPERTY SerIsPure
ACTION_CONSTRAINT EmitT
