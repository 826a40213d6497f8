SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Args = {"a", "b"}
 Codes = {"OK", "NotFound"}
 Split = FALSE
 Export = TRUE
PROPERTY C32
