SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"GroupCreate", "GroupDestroy", "Restart"}
 E = {}
 G = {"g1", "g2", "g3"}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums <- AutoNums
 MetaK = {}
 MetaV = {}
 Pre <- PreNone
 MaxE = 20
 MaxG = 9
 MaxN = 6
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C18
PROPERTY P_C17
PROPERTY P_C36
