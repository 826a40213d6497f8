SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"a"}
 Chks = {"c"}
 Msgs = {"x"}
 WithJwt = TRUE
 Export = TRUE
PROPERTY C31
PROPERTY C31First
