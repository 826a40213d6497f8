SPECIFICATION Spec
VIEW KView
CHECK_DEADLOCK FALSE
CONSTRAINT MBound
CONSTANTS
 Disks <- DAll
 Rpcs = {"EntityUM", "GroupAddMember", "AuthValidateToken", "SelfSecret"}
 Crafts <- CAll
 Alters = {"", "x"}
 Names = {"t1", "t2"}
 Ids = {"root0", "m1"}
 Lives = {"short", "long"}
 Waits = TRUE
 MaxGen = 2
 Export = FALSE
PROPERTY C08Accept
PROPERTY C08Genuine
PROPERTY C08Restart
PROPERTY C08Rekey
