SPECIFICATION Spec
VIEW KView
CONSTRAINT Small
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"GroupCreate", "GroupDestroy", "GroupUpdate", "GroupUM", "GroupAddMember", "SystemCapabilities", "SystemStatus", "Restart"}
 Acts = {"GroupCreate", "GroupUpdate", "GroupDestroy"}
 Export = TRUE
PROPERTY C29
PROPERTY C29b
