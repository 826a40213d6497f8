SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityCreate", "EntityDestroy", "EntityInfo", "EntityUM", "GroupAddMember", "SystemCapabilities", "EntityKVAdd", "Restart"}
 E = {"e1", "e2"}
 G = {"g1"}
 Secs = {"s1", "s2"}
 UseToks = {"T0"}
 CapsC = {"LOCK_ENTITY"}
 UMK = {"k"}
 UMV = {"v"}
 KVK = {"k"}
 KVV <- Vals1
 KT = {}
 KK = {}
 Nums = {1}
 MetaK = {}
 MetaV = {}
 Pre <- PreE1G1
 MaxE = 3
 MaxG = 9
 MaxN = 60
 MaxLevel = 1000
 Export = TRUE
PROPERTY P_Ghost
PROPERTY P_C16
PROPERTY P_C36
PROPERTY P_C22
PROPERTY P_C23
