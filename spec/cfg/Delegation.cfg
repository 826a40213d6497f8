SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"}
 E = {"e1"}
 G = {"g1", "g2"}
 Secs = {"s1"}
 UseToks = {"T0", "t_e1"}
 CapsC = {}
 UMK = {"k"}
 UMV = {"v"}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {"d"}
 Pre <- PreDeleg
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C05
PROPERTY P_C06
PROPERTY P_C13
PROPERTY P_C15
PROPERTY P_C23
PROPERTY P_C36
INVARIANT I_C12b
