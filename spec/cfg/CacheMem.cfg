SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Owners = {"a", "b"}
 Toks = {"x", "y"}
 Insts = {1, 2}
 Shared = FALSE
 Export = TRUE
PROPERTY C33
PROPERTY C33Files
