SPECIFICATION FSpec
INVARIANT Finished
CHECK_DEADLOCK FALSE
