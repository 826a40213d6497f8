SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityUM"}
 E = {"e1", "e2"}
 G = {}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {"k", "k{0}", "k{1}", "kk", "k:"}
 UMV = {"v", "w"}
 KVK = {}
 KVV <- NoVals
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C20
PROPERTY P_C23
PROPERTY P_C36
INVARIANT I_C20
