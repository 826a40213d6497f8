SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "GroupCreateMB", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "AuthChangeSecret", "SystemCapabilities", "AuthEntity", "AuthValidateToken", "EntityInfo", "EntityGroups", "GroupInfo", "GroupMembers", "EntityKVGet", "GroupKVGet", "AuthGetToken", "RestartRO", "Restart"}
 E = {"e1", "e2"}
 G = {"g1", "g2"}
 Secs = {"s1"}
 UseToks = {"T0", "t_e1", ""}
 CapsC = {"LOCK_ENTITY"}
 UMK = {"k{0}"}
 UMV = {"v"}
 KVK = {"k"}
 KVV <- Vals1
 KT = {"ssh"}
 KK = {"A"}
 Nums = {1}
 MetaK = {"Shell"}
 MetaV = {"x"}
 Pre <- PreRich
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 2
 Export = TRUE
PROPERTY P_C10
PROPERTY P_C05
PROPERTY P_C23
PROPERTY P_C36
INVARIANT I_C11
