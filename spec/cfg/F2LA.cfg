SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Allowed = 2
 Interval = 2
 Admin = TRUE
 Export = TRUE
PROPERTY C30
