SPECIFICATION Spec
VIEW KView
CONSTRAINT Small
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityCreate", "EntityDestroy", "EntityUpdate", "EntityUM", "EntityKeys", "EntityLock"}
 Acts = {"EntityCreate", "EntityUpdate", "EntityDestroy"}
 Export = TRUE
PROPERTY C29
PROPERTY C29b
