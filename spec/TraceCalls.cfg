SPECIFICATION Spec
INVARIANT StepsConform
CHECK_DEADLOCK FALSE
