SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"SystemCapabilities", "AuthGetToken", "GroupAddMember"}
 E = {"e1", "e3"}
 G = {"g1", "g3"}
 Secs = {"s1"}
 UseToks = {"T0", "t_e1", "", "!garbage"}
 CapsC = {"LOCK_ENTITY", "GLOBAL_ROOT"}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1G1T
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C22
PROPERTY P_C05
PROPERTY P_C09
PROPERTY P_C23
PROPERTY P_C36
