SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AddTwo", "DelTwo", "GroupUpdate", "GroupDestroy"}
 E = {"e1", "e2"}
 G = {"g1", "g2"}
 Secs = {"s1"}
 UseToks = {"T0", "t_e1"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreDeleg2
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C06
PROPERTY P_C15
PROPERTY P_C36
