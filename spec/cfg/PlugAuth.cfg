SPECIFICATION Spec
VIEW KView
CONSTRAINT Small
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AuthEntity", "AuthGetToken", "AuthChangeSecret", "EntityLock", "EntityUnlock", "SystemStatus", "Restart", "EntityInfo"}
 Acts = {"PreAuthCheck", "PostAuthCheck", "PreSecretChange", "PostSecretChange", "EntityLock", "EntityUnlock"}
 Export = TRUE
PROPERTY C29
PROPERTY C29b
