SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"a", "b"}
 Chks = {"c", "d"}
 Msgs = {"", "x"}
 WithJwt = FALSE
 Export = TRUE
PROPERTY C31
PROPERTY C31First
