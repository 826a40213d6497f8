SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTRAINT MBound
CONSTANTS
 Disks <- DNone
 Rpcs = {"EntityUM"}
 Crafts <- CSome
 Alters = {"", "x"}
 Names = {"t1"}
 Ids = {"root0"}
 Lives = {"short", "long"}
 Waits = TRUE
 MaxGen = 0
 Export = TRUE
PROPERTY C08Accept
PROPERTY C08Genuine
PROPERTY C08Restart
PROPERTY C08Rekey
