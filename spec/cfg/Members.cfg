SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"AddTwo", "DelTwo", "GroupAddMember", "GroupDelMember", "EntityGroups", "GroupMembers"}
 E = {"e1", "e2", "e3"}
 G = {"g1", "g2"}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE12G12
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C15
PROPERTY P_C36
INVARIANT I_C11
INVARIANT I_C11b
