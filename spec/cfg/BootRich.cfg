SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"Bootstrap", "Restart", "EntityLock", "EntityDestroy", "EntityCreate", "EntityInfo", "EntityGroups"}
 E = {"e1", "e2", "e3"}
 G = {}
 Secs = {"s1", "s2"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreRich
 MaxE = 20
 MaxG = 9
 MaxN = 4
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_Ghost
PROPERTY P_C28
PROPERTY P_C36
PROPERTY P_C16
INVARIANT I_C11
INVARIANT I_C11b
