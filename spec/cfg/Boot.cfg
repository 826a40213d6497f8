SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AuthEntity", "AuthChangeSecret", "EntityCreate", "EntityDestroy", "EntityLock", "Restart", "RestartRO", "Bootstrap", "SystemCapabilities"}
 E = {"e1"}
 G = {}
 Secs = {"s1", "s2"}
 UseToks = {"T0"}
 CapsC = {"LOCK_ENTITY", "GLOBAL_ROOT"}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1T
 MaxE = 20
 MaxG = 9
 MaxN = 3
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_Ghost
PROPERTY P_C01
PROPERTY P_C02
PROPERTY P_C28
PROPERTY P_C10
PROPERTY P_C16
PROPERTY P_C22
PROPERTY P_C36
