SPECIFICATION Spec
INVARIANT Written
