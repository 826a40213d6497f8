SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTRAINT MBound
CONSTANTS
 Disks <- DAll
 Rpcs = {"EntityUM", "GroupAddMember"}
 Crafts <- CAll
 Alters = {"", "x"}
 Names = {"t1"}
 Ids = {"root0", "m1"}
 Lives = {"long"}
 Waits = FALSE
 MaxGen = 1
 Export = TRUE
PROPERTY C08Accept
PROPERTY C08Genuine
PROPERTY C08Restart
PROPERTY C08Rekey
