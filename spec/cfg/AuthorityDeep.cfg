SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "GroupCreateMB", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "AuthChangeSecret", "SystemCapabilities", "RestartRO"}
 E = {"e2"}
 G = {"g1"}
 Secs = {"s1"}
 UseToks <- ToksC05
 CapsC = {"LOCK_ENTITY"}
 UMK = {"k{0}"}
 UMV = {"v"}
 KVK = {"k"}
 KVV <- Vals1
 KT = {"ssh"}
 KK = {"A"}
 Nums = {1}
 MetaK = {"Shell"}
 MetaV = {"x"}
 Pre <- PreCaps
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 2
 Export = FALSE
PROPERTY P_C05
PROPERTY P_C06
PROPERTY P_C10
PROPERTY P_C22
PROPERTY P_C23
PROPERTY P_C36
INVARIANT I_C11
INVARIANT I_C12b
