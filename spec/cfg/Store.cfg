SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTRAINT MBound
CONSTANTS
 Dirs = {"entities", "groups"}
 Names = {"a", "ab"}
 Vals = {"v", "w"}
 Faults = FALSE
 Export = TRUE
PROPERTY C25Read
PROPERTY C25Put
PROPERTY C25Del
PROPERTY C24Reopen
