SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Allowed = 3
 Interval = 3
 Admin = FALSE
 Export = TRUE
PROPERTY C30
