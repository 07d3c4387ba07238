SPECIFICATION Spec
INVARIANT WellFounded
CHECK_DEADLOCK FALSE
