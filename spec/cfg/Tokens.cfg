SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AuthGetToken", "SystemCapabilities", "GroupAddMember", "GroupDelMember", "GroupUpdateRules"}
 E = {"e1"}
 G = {"g1", "g2"}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {"LOCK_ENTITY"}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1G12
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C09
PROPERTY P_C22
PROPERTY P_C36
