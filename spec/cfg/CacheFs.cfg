SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Owners = {"a", "b", "c"}
 Toks = {"x", "y"}
 Insts = {1, 2}
 Shared = TRUE
 Export = TRUE
PROPERTY C33
PROPERTY C33Files
