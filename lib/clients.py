"""Calls of the client library and of the command line tool."""
import string

CODES = ["NotFound", "PermissionDenied", "AlreadyExists", "Internal", "Unauthenticated", "InvalidArgument", "Unimplemented", "FailedPrecondition"]
CAPS = ["GLOBAL_ROOT", "CREATE_ENTITY", "DESTROY_ENTITY", "MODIFY_ENTITY_META", "MODIFY_ENTITY_KEYS", "CHANGE_ENTITY_SECRET",
        "LOCK_ENTITY", "UNLOCK_ENTITY", "CREATE_GROUP", "DESTROY_GROUP", "MODIFY_GROUP_META", "MODIFY_GROUP_MEMBERS"]
ACTIONS = ["ADD", "DROP", "UPSERT", "CLEAREXACT", "CLEARFUZZY", "READ"]
RULES = ["INCLUDE", "EXCLUDE", "REMOVE_RULE"]
READS = ["AuthEntity", "AuthGetToken", "AuthValidateToken", "EntityInfo", "EntitySearch", "EntityKVGet", "EntityGroups",
         "GroupInfo", "GroupKVGet", "GroupMembers", "GroupSearch", "SystemPing", "SystemStatus"]
MIXED = ["EntityUM", "GroupUM", "EntityKeys"]
WRITES = ["AuthChangeSecret", "EntityCreate", "EntityUpdate", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityDestroy",
          "EntityLock", "EntityUnlock", "GroupCreate", "GroupUpdate", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
          "GroupAddMember", "GroupDelMember", "GroupDestroy", "SystemCapabilities"]
METAS = ["PrimaryGroup", "GECOS", "LegalName", "DisplayName", "Home", "Shell", "GraphicalShell", "BadgeNumber"]
ODD = ["", " ", "a b", "ü", "日本", "{0}", "k{1}", "a:b", "*", "%s", "\\", "\"", "'", "/", "../x", "ManagedBy:", "a\nb", "-1", "0", "true"]
IDS = ["ada", "bob", "Ada", "grp-1", "x" * 40]


def word(r, odd=.25):
    if r.random() < odd:
        return r.choice(ODD)
    return r.choice(IDS) if r.random() < .5 else "".join(r.choice(string.ascii_letters) for _ in range(r.randint(1, 8)))


def cased(r, s):
    return r.choice([s, s.lower(), s.capitalize(), "".join(r.choice([ch.lower(), ch.upper()]) for ch in s)])


def values(r, n):
    return ["v%d%s" % (j, word(r)) for j in r.sample(range(100), n)]


def triples(r, upper=False, n=None, index=True):
    """Keys with values, each with an index (-1 for none)."""
    keys = ["SSH", "PGP", "X509"] if upper else ["phone", "mail", "a", "Phone", "k k"]
    out = []
    for k in r.sample(keys, r.randint(0, 3)):
        m = r.choice([0, 1, 1, 2, 3, 5, 12, 20]) if n is None else n
        vs = values(r, m)
        idx = list(range(m))
        x = r.random()
        if not index or x < .2:
            idx = [-1] * m
        elif x < .5:
            idx = r.sample(range(0, 200), m)
        elif x < .6:
            idx = [r.choice([0, 1, 10, 100]) for _ in vs]
        out += [[k, i, v] for i, v in zip(idx, vs)]
    r.shuffle(out)
    return out


def fill(r, c):
    """Spells out a call whose op, can and code are given."""
    op = c["op"]
    c = {"op": op, "code": c["code"], "can": c.get("can", "-"), "id": word(r), "tok": ("token-" + word(r, 0)) if c.get("tok") else ""}
    if c["code"] != "OK":
        c["code"] = r.choice(CODES)
    if op.startswith("Auth"):
        c["sec"], c["old"], c["val"], c["token"] = word(r), word(r), word(r), "tok-" + word(r, 0)
    if op in ("EntityCreate", "GroupCreate"):
        c["num"] = r.choice([-1, -1, 0, 1, 2, 1000, 2**31 - 1, -2, -2**31])
        c["sec"], c["dn"], c["mb"] = word(r), word(r), word(r)
    if op == "GroupUpdate":
        for f in ("dn", "mb"):
            if r.random() < .6:
                c[f] = word(r)
    if op == "EntityUpdate":
        c["meta"] = [[f, word(r)] for f in r.sample(METAS, r.randint(0, 8))]
    if op in ("EntitySearch", "GroupSearch"):
        c["expr"] = word(r)
    if op in ("EntitySearch", "GroupMembers", "EntityGroups", "GroupSearch", "SystemStatus"):
        c["ids"] = [word(r) for _ in range(r.choice([0, 1, 2, 5]))]
    if op in ("EntityInfo", "GroupInfo"):
        c["ids"] = [r.choice([c["id"], word(r)])]
    if op == "GroupInfo":
        c["subs"] = [[word(r), r.choice([c["id"], c["id"], c["id"] + "x", word(r)])] for _ in range(r.choice([0, 1, 3]))]
        c["code2"] = "OK" if r.random() < .7 else r.choice(CODES)
    if op in MIXED:
        c["act"] = cased(r, c["can"]) if c["can"] else r.choice(["", "REED", "INCLUDE", "LIST", "DEL", "0", "ADD "])
        c["strs"] = triples(r, op == "EntityKeys", index=op != "EntityKeys")
        c["base"] = r.choice([t[0] for t in c["strs"]] or ["phone"]) if r.random() < .8 else word(r, 0)
        c["key"] = c["base"]
        if op == "EntityKeys":
            c["base"] = c["base"].upper()
            c["key"] = cased(r, c["base"])
        elif r.random() < .3:
            c["key"] += "{%d}" % r.choice([0, 1, 7, 10])
        else:
            # the server answers with what was asked for
            c["strs"] = c["strs"] if r.random() < .4 else [t for t in c["strs"] if t[0] == c["base"]]
        if r.random() < .3:
            c["key"] = c["base"] = "*"
        c["val"] = word(r)
    if "KV" in op:
        c["key"], c["vals"] = word(r), [word(r) for _ in range(r.choice([0, 1, 2, 3, 12, 30]))]
        c["kvs"] = []
        for k in r.sample(["a", "b", "A", "x y"], r.choice([0, 1, 1, 2, 4])):
            vs = values(r, r.choice([1, 2, 3, 5, 13, 25]))
            idx = r.choice([list(range(len(vs))), r.sample(range(-5, 300), len(vs)), [r.choice([0, 1, 2]) for _ in vs]])
            p = [[v, i] for v, i in zip(vs, idx)]
            r.shuffle(p)
            c["kvs"].append([k, p])
    if op == "GroupUpdateRules":
        c["tgt"] = word(r)
        c["act"] = cased(r, c["can"]) if c["can"] else r.choice(["", "INCLUDES", "ADD", "READ", "REMOVE"])
        if c["can"] == "REMOVE_RULE" and r.random() < .5:
            c["act"] = cased(r, "DROP")
    if op in ("GroupAddMember", "GroupDelMember"):
        c["tgt"] = word(r)
    if op == "SystemCapabilities":
        c["act"] = cased(r, c["can"]) if c["can"] else r.choice(["", "DEL", "REMOVE", "include"])
        c["ccap"] = r.choice(CAPS)
        c["cap"] = cased(r, c["ccap"])
        if r.random() < .1:
            c["ccap"], c["cap"] = "", r.choice(["", "ROOT", "LOCK", "LOCK_ENTITY "])
        c["direct"] = r.random() < .5
    return c


def concrete(r, i):
    return lambda c: fill(r, c)


def soup(r, n=40, reads=.5):
    out = []
    for _ in range(n):
        op = r.choice(READS + MIXED) if r.random() < reads else r.choice(WRITES + MIXED)
        can = "-"
        if op in MIXED:
            can = r.choice(["READ", "READ", "READ"] + ACTIONS + [""])
        elif op == "SystemCapabilities":
            can = r.choice(["ADD", "DROP"] * 3 + ACTIONS + [""])
        elif op == "GroupUpdateRules":
            can = r.choice(RULES * 2 + [""])
        out.append(fill(r, {"op": op, "can": can, "code": "OK" if r.random() < .75 else "X", "tok": "t" if r.random() < .5 else ""}))
    return out


def libify(r, steps, share=.85):
    """Puts requests through the client library, where it can express them."""
    out = []
    for s in steps:
        op = s.get("op")
        s = dict(s)
        if "vals" in s and s["vals"] != [] or op in ("EntityKVAdd", "EntityKVReplace", "GroupKVAdd", "GroupKVReplace"):
            vs = []
            for v in [x[0] for x in s.get("vals", [])] or ["v"]:
                vs.append(v)
            s["vals"] = [[v, j] for j, v in enumerate(vs)]
        out.append(s)
        if op not in READS + MIXED + WRITES or s.get("hostile") or r.random() > share or str(s.get("tok", "")).startswith("!"):
            continue
        if op in MIXED and (s.get("act") not in ACTIONS or s["act"] == "READ" and (op != "EntityKeys" or s.get("typ") != "*")):
            continue
        if op == "GroupUpdateRules" and s.get("act") not in RULES:
            continue
        if op in ("GroupAddMember", "GroupDelMember") and len(s.get("gs", [])) != 1:
            continue
        if op == "SystemCapabilities" and (s.get("act") not in ACTIONS or s.get("cap") not in CAPS):
            continue
        if op in ("SystemStatus",):
            continue
        s["via"] = "lib"
    return out


# ---- commands

PLAIN = ["ada", "Bob", "grp-1", "a b", "ü", "x=y", "--flag", "-n", "*", "%d", "\"q\"", "a,b", "it's", "a/b", "5"]
EF = ["ID", "number", "PrimaryGroup", "GECOS", "legalName", "displayName", "homedir", "shell", "graphicalShell", "badgeNumber", "capabilities"]
GF = ["name", "displayName", "number", "managedBy", "rules", "capabilities"]


def plain(r):
    return r.choice(PLAIN) if r.random() < .6 else "".join(r.choice(string.ascii_letters) for _ in range(r.randint(1, 8)))


def entrec(r):
    return {"id": plain(r), "num": r.randint(0, 3000), "meta": [[f, r.choice(["", plain(r), plain(r)])] for f in r.sample(METAS, r.randint(0, 8))],
            "caps": r.sample(CAPS, r.choice([0, 0, 1, 3]))}


def grprec(r):
    return {"id": plain(r), "num": r.randint(0, 3000), "dn": r.choice(["", plain(r)]), "mb": r.choice(["", plain(r)]),
            "rules": [r.choice(["INCLUDE:", "EXCLUDE:"]) + plain(r) for _ in range(r.choice([0, 0, 1, 2]))], "caps": r.sample(CAPS, r.choice([0, 0, 1, 3]))}


BAD = [["entity", "create"], ["entity", "create", "a", "b"], ["entity", "destroy"], ["entity", "lock"], ["entity", "unlock"], ["entity", "info"], ["entity", "update"],
       ["entity", "membership", "a", "ADD"], ["entity", "membership", "a", "JOIN", "g"], ["entity", "kv", "a", "READ"], ["entity", "kv", "a", "UPSERT", "k"],
       ["entity", "kv", "a", "SET", "k", "v"], ["entity", "key"], ["entity", "key", "ADD", "SSH"], ["entity", "key", "DROP", "SSH", "k"], ["entity", "key", "LIST"],
       ["entity", "key", "READ", "SSH", "k"], ["group", "create"], ["group", "destroy"], ["group", "rule", "a", "REMOVE_RULE", "b"], ["group", "rule", "a", "ADD", "b"],
       ["group", "rule", "a", "INCLUDE"], ["group", "kv", "a", "FOO", "k"], ["kv2", "add", "entity", "a", "k"], ["kv2", "add", "user", "a", "k", "v"], ["kv2", "get", "entity", "a"],
       ["kv2", "del", "group", "a"], ["kv2", "replace", "group", "a", "k"], ["system", "capability", "a", "ADD"], ["system", "capability", "a", "READ", "LOCK_ENTITY"],
       ["system", "capability", "a", "ADD", "ROOT"], ["group", "create", "--number", "x", "g"], ["entity", "create", "--bogus", "g"], ["group", "info"], ["entity", "search"]]


def command(r, c, k):
    """Spells out a command whose op, can, code, who, tcode and life are given; k is unlike that of any other."""
    op = c["op"]
    c = dict(c)
    who, other = ("ada", "root") if k["swap"] else ("root", "ada")
    c["who"] = who if c["who"] == "w1" else other
    c["new"] = "t%d" % k["n"]
    k["n"] += 1
    if c["tcode"] != "OK":
        c["tcode"] = r.choice(CODES)
    if c["code"] != "OK":
        c["code"] = r.choice(CODES)
    c.update(sec=plain(r).lstrip("-") or "s", env=r.random() < .4, id=plain(r), val="", old="", key="", base="")
    if op == "Bad":
        c["argv"] = r.choice(BAD)
    if op in ("AuthChangeSecret", "EntityCreate"):
        c["nsec"] = plain(r).lstrip("-") or "n"
    if op == "AuthChangeSecret":
        c["id"] = r.choice(["", c["who"], plain(r).lstrip("-") or "n"])
    if op in ("EntityCreate", "GroupCreate"):
        c["num"] = r.choice([-1, -1, 0, 1, 2, 1000, 2**31 - 1])
        c["dn"], c["mb"] = r.choice(["", plain(r)]), r.choice(["", plain(r)])
    if op == "GroupUpdate":
        for f in ("dn", "mb"):
            if r.random() < .6:
                c[f] = r.choice(["", plain(r)])
    if op == "EntityUpdate":
        c["meta"] = [[f, r.choice(["", plain(r), plain(r)])] for f in r.sample(METAS, r.randint(0, 8))]
    if op in ("EntitySearch", "GroupSearch"):
        c["expr"] = plain(r)
    n = 1 if op.endswith("Info") else r.choice([0, 1, 2, 3])
    if op in ("EntityInfo", "EntitySearch", "GroupMembers", "GroupInfo", "GroupSearch", "EntityGroups"):
        ent = op in ("EntityInfo", "EntitySearch", "GroupMembers")
        c["ents"] = [entrec(r) for _ in range(n)] if ent else []
        c["grps"] = [] if ent else [grprec(r) for _ in range(n)]
        fs = [] if r.random() < .6 else [cased(r, f) for f in r.sample(EF if ent else GF, r.randint(1, 4))]
        c["fields"], c["low"] = fs, [f.lower() for f in fs]
        c["subs"] = [[plain(r), r.choice([c["id"], c["id"], c["id"] + "x"])] for _ in range(r.choice([0, 1, 3]))]
        c["code2"] = "OK" if r.random() < .7 else r.choice(CODES)
    if op == "SystemStatus":
        c["ids"] = [plain(r) for _ in range(r.choice([0, 1, 2]))]
    if op in MIXED:
        c["act"] = cased(r, c["can"])
        c["strs"] = [[k_, i, "v%d" % j] for j, (k_, i, _) in enumerate(triples(r, op == "EntityKeys", index=op != "EntityKeys"))]
        c["base"] = c["key"] = r.choice([t[0] for t in c["strs"]] or ["SSH"])
        if op == "EntityKeys":
            c["key"] = cased(r, c["base"])
            if c["can"] == "READ" and r.random() < .3:
                c["key"] = ""
            if r.random() < .5:
                c["id"] = ""
            else:
                c["id"] = c["id"].lstrip("-") or "e"
        elif r.random() < .3:
            c["key"] += "{%d}" % r.choice([0, 1, 7, 10])
        if r.random() < .2 and c["can"] == "READ":
            c["key"] = c["base"] = "*"
        c["val"] = plain(r)
    if "KV" in op:
        c["key"] = plain(r)
        c["vals"] = [plain(r) for _ in range(r.choice([1, 2, 3, 12]))] if op.endswith(("Add", "Replace")) else []
        c["kvs"] = []
        for q in r.sample(["a", "b", "A", "x y"], r.choice([1, 1, 2])):
            m = r.choice([1, 2, 3, 13])
            p = [["v%d" % j, i] for j, i in enumerate(r.sample(range(0, 300), m))]
            c["kvs"].append([q, p])
    if op == "GroupUpdateRules":
        c["tgt"] = plain(r)
        c["act"] = cased(r, "DROP" if c["can"] == "REMOVE_RULE" else c["can"])
    if op in ("GroupAddMember", "GroupDelMember"):
        c["tgt"] = plain(r)
        c["act"] = cased(r, "ADD" if op == "GroupAddMember" else "DROP")
    if op == "SystemCapabilities":
        c["act"] = cased(r, c["can"])
        c["ccap"] = r.choice(CAPS)
        c["cap"] = cased(r, c["ccap"])
        c["direct"] = r.random() < .5
    return c


def commands(r, i):
    k = {"n": 0, "swap": r.random() < .5}
    return lambda c: command(r, c, k)
