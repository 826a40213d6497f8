SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS
 Ops = {"EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "GroupCreateMB", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "AuthChangeSecret", "SystemCapabilities", "AuthEntity", "AuthValidateToken", "EntityInfo", "EntityGroups", "GroupInfo", "GroupMembers", "EntityKVGet", "GroupKVGet", "AuthGetToken", "RestartRO", "Restart", "Bootstrap"}
 E = {"e1", "e2", "e3"}
 G = {"g1", "g2", "g3"}
 Secs = {"s1"}
 UseToks = {"T0", "t_e1"}
 CapsC = {"LOCK_ENTITY"}
 UMK = {"k{0}"}
 UMV = {"v"}
 KVK = {"k"}
 KVV <- Vals1
 KT = {"ssh"}
 KK = {"A"}
 Nums = {1}
 MetaK = {"Shell"}
 MetaV = {"x"}
 Pre <- PreRich
 MaxE = 20
 MaxG = 9
 MaxN = 60
 MaxLevel = 3
 Export = FALSE
PROPERTY P_Ghost
PROPERTY P_C01
PROPERTY P_C02
PROPERTY P_C05
PROPERTY P_C07
PROPERTY P_C10
PROPERTY P_C16
PROPERTY P_C17
PROPERTY P_C23
PROPERTY P_C36
PROPERTY P_C15
PROPERTY P_C13
PROPERTY P_C22
PROPERTY P_C28
INVARIANT I_C11
INVARIANT I_C11b
INVARIANT I_C12b
INVARIANT I_C13
INVARIANT I_C19
INVARIANT I_C20
