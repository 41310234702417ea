SPECIFICATION Spec
INVARIANT GenInv
PROPERTY Frozen
