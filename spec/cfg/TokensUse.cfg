SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AuthGetToken", "SystemCapabilities", "EntityLock", "EntityUnlock", "EntityDestroy", "EntityCreate", "AuthValidateToken"}
 E = {"e1"}
 G = {}
 Secs = {"s1"}
 UseToks = {"T0", "t_e1"}
 CapsC = {"LOCK_ENTITY", "GLOBAL_ROOT"}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1T
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C09
PROPERTY P_C05
PROPERTY P_C22
PROPERTY P_C36
