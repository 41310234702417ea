SPECIFICATION Spec
INVARIANT GenInv
