SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTANTS
 Ks <- KK
 Vals = {"v", "w"}
 Odd = {"nodb"}
 Export = TRUE
PROPERTY C34
