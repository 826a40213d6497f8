SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityKeys"}
 E = {"e1", "e2", "e3"}
 G = {}
 Secs = {"s1"}
 UseToks = {"T0"}
 CapsC = {}
 UMK = {}
 UMV = {}
 KVK = {}
 KVV <- NoVals
 KT = {"ssh", "pgp", "ssh:"}
 KK = {"A", "B"}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE12
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_C21
PROPERTY P_C23
PROPERTY P_C36
