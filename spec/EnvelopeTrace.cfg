SPECIFICATION Spec
INVARIANT Inv
