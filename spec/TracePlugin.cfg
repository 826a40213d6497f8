SPECIFICATION PSpec
INVARIANT Finished
CHECK_DEADLOCK FALSE
