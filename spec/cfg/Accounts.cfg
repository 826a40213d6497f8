SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AuthEntity", "AuthGetToken", "AuthChangeSecret", "EntityCreate", "EntityDestroy", "EntityLock", "EntityUnlock", "Restart"}
 E = {"e1", "e2"}
 G = {}
 Secs = {"s1", "s2"}
 UseToks = {"T0", "t_e1"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1T
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_Ghost
PROPERTY P_C01
PROPERTY P_C02
PROPERTY P_C03
PROPERTY P_C09
PROPERTY P_C16
PROPERTY P_C23
PROPERTY P_C36
