SPECIFICATION Spec
CONSTANTS
 MaxNames = 4
 Given = {"al", "al.pha", "q_w.zz"}
INVARIANT Injective
