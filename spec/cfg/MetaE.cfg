SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityUpdate", "EntityInfo", "AuthEntity", "Restart"}
 E = {"e1", "e2"}
 G = {}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {"Shell", "GECOS"}
 MetaV = {"x", "y"}
 Pre <- PreRich
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C07
PROPERTY P_C23
PROPERTY P_C36
