SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Who = {"w1", "w2"}
 Split = FALSE
 Export = TRUE
PROPERTY C37
