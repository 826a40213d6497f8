SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityCreate", "EntityDestroy", "Restart"}
 E = {"e1", "e2", "e3"}
 G = {}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums <- AutoNums
 MetaK = {}
 MetaV = {}
 Pre <- PreNone
 MaxE = 20
 MaxG = 9
 MaxN = 7
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C18
PROPERTY P_C16
PROPERTY P_C36
