SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"GroupUpdateRules"}
 E = {"e1"}
 G = {"g1", "g2", "g3", "g4"}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreG1234
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = FALSE
PROPERTY P_C12
PROPERTY P_C13
PROPERTY P_C36
INVARIANT I_C11
INVARIANT I_C11b
INVARIANT I_C12
INVARIANT I_C12b
INVARIANT I_C13
