#!/usr/bin/env python3
"""Writes the TLC configurations of MC.tla into spec/cfg."""
import os

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "cfg")
DEF = dict(Ops=[], E=[], G=[], Secs=["s1"], UseToks=["T0"], CapsC=[], UMK=[], UMV=[], KVK=[], KVV="NoVals", KT=[], KK=[],
           Nums=[1], MetaK=[], MetaV=[], Pre="PreNone", MaxE=20, MaxG=9, MaxN=60, MaxLevel=1000, Export=True)
ALLTOK = ["", "!garbage", "T0", "t_e1"]
ENTOPS = ["EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys",
          "EntityDestroy", "EntityLock", "EntityUnlock"]
GRPOPS = ["GroupCreateMB", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
          "GroupAddMember", "GroupDelMember", "GroupDestroy"]
QRY = ["AuthEntity", "AuthValidateToken", "EntityInfo", "EntityGroups", "GroupInfo", "GroupMembers", "EntityKVGet", "GroupKVGet"]
MODS = ENTOPS + GRPOPS + ["AuthChangeSecret", "SystemCapabilities"]
EACH = dict(UMK=["k{0}"], UMV=["v"], KVK=["k"], KVV="Vals1", KT=["ssh"], KK=["A"], CapsC=["LOCK_ENTITY"], MetaK=["Shell"], MetaV=["x"])

# name: (constants, properties, invariants)
C = {
    # accounts
    "Accounts": (dict(Ops=["AuthEntity", "AuthGetToken", "AuthChangeSecret", "EntityCreate", "EntityDestroy", "EntityLock",
                           "EntityUnlock", "Restart"], E=["e1", "e2"], Secs=["s1", "s2"], UseToks=["T0", "t_e1"], Pre="PreE1T"),
                 ["P_Ghost", "P_C01", "P_C02", "P_C03", "P_C09", "P_C16", "P_C23", "P_C36"], []),
    "Boot": (dict(Ops=["AuthEntity", "AuthChangeSecret", "EntityCreate", "EntityDestroy", "EntityLock", "Restart", "RestartRO",
                       "Bootstrap", "SystemCapabilities"], E=["e1"], Secs=["s1", "s2"], UseToks=["T0"], Pre="PreE1T",
                  CapsC=["LOCK_ENTITY", "GLOBAL_ROOT"], MaxN=3),
             ["P_Ghost", "P_C01", "P_C02", "P_C28", "P_C10", "P_C16", "P_C22", "P_C36"], []),
    "BootRich": (dict(Ops=["Bootstrap", "Restart", "EntityLock", "EntityDestroy", "EntityCreate", "EntityInfo", "EntityGroups"], E=["e1", "e2", "e3"],
                      Secs=["s1", "s2"], Pre="PreRich", MaxN=4),
                 ["P_Ghost", "P_C28", "P_C36", "P_C16"], ["I_C11", "I_C11b"]),
    "SecretAuth": (dict(Ops=["AuthChangeSecret", "EntityLock", "EntityUnlock", "AuthEntity", "RestartRO", "Restart"],
                        E=["e1", "e2"], Secs=["s1", "s2"], UseToks=["T0", "t_e1", "t_e2", "", "!garbage"], Pre="PreE12TC"),
                   ["P_Ghost", "P_C01", "P_C02", "P_C03", "P_C05", "P_C10", "P_C23", "P_C36"], []),
    # authority
    "Authority": (dict(EACH, Ops=MODS, E=["e2"], G=["g1"], UseToks="ToksC05", Pre="PreCaps", MaxLevel=1),
                  ["P_C05", "P_C06", "P_C22", "P_C23", "P_C36"], []),
    "AuthorityRO": (dict(EACH, Ops=MODS + ["AuthEntity", "EntityInfo"], E=["e2"], G=["g1"], UseToks="ToksC05", Pre="PreCapsRO", MaxLevel=1),
                    ["P_C05", "P_C06", "P_C10", "P_C23", "P_C36"], []),
    "AuthorityOwn": (dict(EACH, Ops=MODS, E=["e1"], G=["g1"], UseToks=["t_e1", "T0", "", "!garbage"], Pre="PreDeleg", MaxLevel=2),
                     ["P_C05", "P_C06", "P_C22", "P_C23", "P_C36"], []),
    "Delegation": (dict(Ops=["GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"],
                        E=["e1"], G=["g1", "g2"], UseToks=["T0", "t_e1"], UMK=["k"], UMV=["v"], MetaV=["d"], Pre="PreDeleg"),
                   ["P_C05", "P_C06", "P_C13", "P_C15", "P_C23", "P_C36"], ["I_C12b"]),
    "DelegTwo": (dict(Ops=["AddTwo", "DelTwo", "GroupUpdate", "GroupDestroy"],
                      E=["e1", "e2"], G=["g1", "g2"], UseToks=["T0", "t_e1"], Pre="PreDeleg2"),
                 ["P_C06", "P_C15", "P_C36"], []),
    "MetaE": (dict(Ops=["EntityUpdate", "EntityInfo", "AuthEntity", "Restart"], E=["e1", "e2"], MetaK=["Shell", "GECOS"], MetaV=["x", "y"], Pre="PreRich"),
              ["P_C07", "P_C23", "P_C36"], []),
    "MetaG": (dict(Ops=["GroupUpdate", "GroupInfo", "Restart"], G=["g1", "g2"], MetaV=["x", "y", ""], Pre="PreRich"),
              ["P_C07", "P_C23", "P_C36"], []),
    "Tokens": (dict(Ops=["AuthGetToken", "SystemCapabilities", "GroupAddMember", "GroupDelMember", "GroupUpdateRules"], E=["e1"],
                    G=["g1", "g2"], CapsC=["LOCK_ENTITY"], Pre="PreE1G12"),
               ["P_C09", "P_C22", "P_C36"], []),
    "TokensUse": (dict(Ops=["AuthGetToken", "SystemCapabilities", "EntityLock", "EntityUnlock", "EntityDestroy", "EntityCreate", "AuthValidateToken"],
                       E=["e1"], CapsC=["LOCK_ENTITY", "GLOBAL_ROOT"], UseToks=["T0", "t_e1"], Pre="PreE1T"),
                  ["P_C09", "P_C05", "P_C22", "P_C36"], []),
    "ReadOnly": (dict(EACH, Ops=MODS + QRY + ["AuthGetToken", "RestartRO", "Restart"], E=["e1", "e2"], G=["g1", "g2"], Pre="PreRich",
                      UseToks=["T0", "t_e1", ""], MaxLevel=2),
                 ["P_C10", "P_C05", "P_C23", "P_C36"], ["I_C11"]),
    # groups
    "Rules": (dict(Ops=["GroupUpdateRules", "GroupAddMember", "GroupDelMember"], E=["e1"], G=["g1", "g2", "g3"], Pre="PreG123"),
              ["P_C12", "P_C13", "P_C15", "P_C36"], ["I_C11", "I_C11b", "I_C12", "I_C12b", "I_C13"]),
    "RulesDestroy": (dict(Ops=["GroupUpdateRules", "GroupCreate", "GroupDestroy", "GroupMembers", "EntityGroups"], E=["e1"], G=["g1", "g2", "g3"],
                          Pre="PreG123m"),
                     ["P_C12", "P_C13", "P_C17", "P_C36"], ["I_C11", "I_C11b", "I_C12b", "I_C13"]),
    "RulesRestart": (dict(Ops=["GroupUpdateRules", "GroupAddMember", "Restart", "GroupDestroy", "GroupCreate", "EntityDestroy", "EntityCreate"], E=["e1"], G=["g1", "g2"],
                          Pre="PreE1G12"),
                     ["P_C12", "P_C13", "P_C15", "P_C36"], ["I_C11", "I_C11b", "I_C12b", "I_C13"]),
    "Members": (dict(Ops=["AddTwo", "DelTwo", "GroupAddMember", "GroupDelMember", "EntityGroups", "GroupMembers"], E=["e1", "e2", "e3"],
                     G=["g1", "g2"], Pre="PreE12G12"),
                ["P_C15", "P_C36"], ["I_C11", "I_C11b"]),
    # records
    "Entities": (dict(Ops=["EntityCreate", "EntityDestroy", "EntityInfo", "EntityUM", "GroupAddMember", "SystemCapabilities", "EntityKVAdd", "Restart"],
                      E=["e1", "e2"], G=["g1"], Secs=["s1", "s2"], UMK=["k"], UMV=["v"], KVK=["k"], KVV="Vals1", CapsC=["LOCK_ENTITY"], Pre="PreE1G1", MaxE=3),
                 ["P_Ghost", "P_C16", "P_C36", "P_C22", "P_C23"], []),
    "Groups": (dict(Ops=["GroupCreateMB", "GroupDestroy", "GroupInfo", "SystemCapabilities", "GroupUpdateRules"], E=["e1"], G=["g1", "g2"],
                    CapsC=["LOCK_ENTITY"], Pre="PreE1"),
               ["P_C17", "P_C36", "P_C22", "P_C23"], ["I_C11"]),
    "NumbersE": (dict(Ops=["EntityCreate", "EntityDestroy", "Restart"], E=["e1", "e2", "e3"], Nums="AutoNums", Pre="PreNone", MaxN=7),
                 ["P_C18", "P_C16", "P_C36"], []),
    "NumbersG": (dict(Ops=["GroupCreate", "GroupDestroy", "Restart"], G=["g1", "g2", "g3"], Nums="AutoNums", Pre="PreNone", MaxN=6),
                 ["P_C18", "P_C17", "P_C36"], []),
    "KVE": (dict(Ops=["EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace"], E=["e1", "e2", "e3"], KVK=["k", "K"], KVV="Vals2", Pre="PreE12"),
            ["P_C19", "P_C23", "P_C36"], ["I_C19"]),
    "KVG": (dict(Ops=["GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace"], G=["g1", "g2", "g3"], KVK=["k", "K"], KVV="Vals2", Pre="PreE12G12"),
            ["P_C19", "P_C23", "P_C36"], ["I_C19"]),
    "UME": (dict(Ops=["EntityUM"], E=["e1", "e2"], UMK=["k", "k{0}", "k{1}", "kk"], UMV=["v", "w"], Pre="PreE1"),
            ["P_C20", "P_C23", "P_C36"], ["I_C20"]),
    "UMG": (dict(Ops=["GroupUM"], G=["g1", "g2"], UMK=["k", "k{0}", "k{1}", "kk"], UMV=["v", "w"], Pre="PreG1"),
            ["P_C20", "P_C23", "P_C36"], ["I_C20"]),
    "Keys": (dict(Ops=["EntityKeys"], E=["e1", "e2", "e3"], KT=["ssh", "pgp"], KK=["A", "B"], Pre="PreE12"),
             ["P_C21", "P_C23", "P_C36"], []),
    "Caps": (dict(Ops=["SystemCapabilities", "AuthGetToken", "GroupAddMember"], E=["e1", "e3"], G=["g1", "g3"], CapsC=["LOCK_ENTITY", "GLOBAL_ROOT"],
                  UseToks=["T0", "t_e1", "", "!garbage"], Pre="PreE1G1T"),
             ["P_C22", "P_C05", "P_C09", "P_C23", "P_C36"], []),
    "All": (dict(EACH, Ops=MODS + QRY + ["AuthGetToken"], E=["e1", "e2", "e3"], G=["g1", "g2", "g3"], Pre="PreRich", UseToks=["T0", "t_e1"], MaxLevel=1),
            ["P_C05", "P_C23", "P_C36", "P_C15", "P_C13", "P_C22"], ["I_C11", "I_C12b", "I_C13", "I_C19", "I_C20"]),
    # deeper, not replayed
    "Rules4": (dict(Ops=["GroupUpdateRules"], E=["e1"], G=["g1", "g2", "g3", "g4"], Pre="PreG1234", Export=False),
               ["P_C12", "P_C13", "P_C36"], ["I_C11", "I_C11b", "I_C12", "I_C12b", "I_C13"]),
    "AuthorityDeep": (dict(EACH, Ops=MODS + ["RestartRO"], E=["e2"], G=["g1"], UseToks="ToksC05", Pre="PreCaps", MaxLevel=2, Export=False),
                      ["P_C05", "P_C06", "P_C10", "P_C22", "P_C23", "P_C36"], ["I_C11", "I_C12b"]),
    "AllDeep": (dict(EACH, Ops=MODS + QRY + ["AuthGetToken", "RestartRO", "Restart", "Bootstrap"], E=["e1", "e2", "e3"], G=["g1", "g2", "g3"], Pre="PreRich",
                     UseToks=["T0", "t_e1"], MaxLevel=3, Export=False),
                ["P_Ghost", "P_C01", "P_C02", "P_C05", "P_C07", "P_C10", "P_C16", "P_C17", "P_C23", "P_C36", "P_C15", "P_C13", "P_C22", "P_C28"],
                ["I_C11", "I_C11b", "I_C12b", "I_C13", "I_C19", "I_C20"]),
}


def val(v):
    if v is True or v is False:
        return str(v).upper()
    if isinstance(v, int):
        return str(v)
    return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in v) + "}"


def text(name):
    c, props, invs = C[name]
    d = dict(DEF)
    d.update(c)
    out = ["SPECIFICATION Spec", "VIEW View", "CONSTRAINT Bounded", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    for k, v in d.items():
        out.append(f" {k} <- {v}" if isinstance(v, str) else f" {k} = {val(v)}")
    out += ["PROPERTY " + p for p in props] + ["INVARIANT " + i for i in invs]
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    os.makedirs(D, exist_ok=True)
    for n in C:
        open(os.path.join(D, n + ".cfg"), "w").write(text(n))
