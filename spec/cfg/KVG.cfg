SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace"}
 E = {}
 G = {"g1", "g2", "g3"}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {"k", "K"}
 KVV <- Vals2
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE12G12
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C19
PROPERTY P_C23
PROPERTY P_C36
INVARIANT I_C19
