SPECIFICATION Spec
INVARIANT KitFinished
CHECK_DEADLOCK FALSE
