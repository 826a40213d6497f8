SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AuthChangeSecret", "EntityLock", "EntityUnlock", "AuthEntity", "RestartRO", "Restart"}
 E = {"e1", "e2"}
 G = {}
 Secs = {"s1", "s2"}
 UseToks = {"T0", "t_e1", "t_e2", "", "!garbage"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE12TC
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_Ghost
PROPERTY P_C01
PROPERTY P_C02
PROPERTY P_C03
PROPERTY P_C05
PROPERTY P_C10
PROPERTY P_C23
PROPERTY P_C36
