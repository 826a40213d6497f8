"""Sequences of genuine, altered and forged tokens."""
RPCS = ["AuthValidateToken", "AuthChangeSecret", "SelfSecret", "EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace",
        "EntityKeys", "EntityLock", "EntityUnlock", "EntityDestroy", "GroupDestroy", "GroupCreate", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel",
        "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "SystemCapabilities"]
DELEG = ["GroupUpdate", "GroupUM", "GroupUpdateRules", "GroupAddMember", "GroupDelMember"]
ALGS = ["none", "None", "nonesig", "HS256pem", "HS512pem", "HS256der", "HS256empty", "ES256", "RS256foreign", "PS512foreign", "unknown"]
BADPUB = ["badmode", "badmode2", "empty", "garbage", "notrsa"]
NOCRAFT = {"key": "", "alg": "", "win": "", "eid": "", "caps": []}


def alteration(r):
    k = r.random()
    if k < .45:
        p = r.choice([0, 1, 1, 1, 2, 2])
        return "flip:%d:%d:%d" % (p, r.randrange(600), r.randrange(8))
    if k < .6:
        return r.choice(["trunc:%d:%d", "extend:%d:%d"]) % (r.choice([0, 1, 2]), r.randrange(200))
    return r.choice(["nosig", "twoparts", "onepart", "extra", "swap", "bearer", "double", "eid", "caps", "exp", "noexp", "nbf", "algnone", "alghs", "algrs", "foreignsig"])


def window(r, w):
    return r.choice({"now": ["now", "now2", "now3"], "past": ["past1", "past2", "past3"], "future": ["future1", "future2"]}[w])


def conc(r, i):
    """Makes the abstract alterations, ways of signing and requests of a walk concrete."""
    sub = {}

    def f(c):
        c = dict(c)
        if c["op"] == "Use":
            if c["alter"]:
                c["alter"] = alteration(r)
            c["rpc"] = r.choice(DELEG if c["rpc"] == "GroupAddMember" else [x for x in RPCS if x not in DELEG and x not in ("AuthValidateToken", "SelfSecret")])
            k = dict(c["craft"])
            if c["src"] == "":
                k["alg"] = r.choice(ALGS) if k["alg"] else ""
                k["win"] = window(r, k["win"])
            c["craft"] = k
        elif c["op"] == "Install" and c["pub"] in BADPUB:
            c["pub"] = r.choice(BADPUB)
            c["priv"] = r.choice([c["priv"], "empty", "garbage"])
        return c
    return f


def soup(r, n=40, waits=0):
    steps = []
    names = ["t1", "t2", "t3"]
    for _ in range(n):
        x = r.random()
        if x < .04:
            steps.append({"op": "Install", "pub": r.choice(["K1", "K1", "K2", "K3", "none"] + BADPUB), "priv": r.choice(["K1", "K1", "K2", "none", "garbage", "empty"])})
        elif x < .1:
            steps.append({"op": "Install", "pub": "K1", "priv": "K1"})
        elif x < .2:
            steps.append({"op": "Restart", "gen": r.random() < .5})
        elif x < .22 and waits > 0:
            waits -= 1
            steps.append({"op": "Get", "id": "root0", "sec": "right", "as": "t3", "life": "short"})
            steps.append({"op": "Use", "rpc": "EntityUM", "how": "one", "src": "t3", "alter": "", "craft": NOCRAFT})
            steps.append({"op": "Wait"})
            steps.append({"op": "Use", "rpc": "EntityUM", "how": "one", "src": "t3", "alter": "", "craft": NOCRAFT})
        elif x < .32:
            steps.append({"op": "Get", "id": r.choice(["root0", "m1"]), "sec": r.choice(["right"] * 5 + ["wrong"]), "as": r.choice(names), "life": "long"})
        else:
            src = r.choice(names + [""] * 3)
            c = NOCRAFT
            if src == "":
                root = r.random() < .6
                c = {"key": r.choice(["K1", "K1", "K1", "K2", "K3"]), "alg": r.choice(ALGS) if r.random() < .35 else "",
                     "win": window(r, r.choice(["now", "now", "past", "future"])),
                     "eid": "root0" if root else r.choice(["m1", "root0", "", "nobody"]), "caps": ["GLOBAL_ROOT"] if root else []}
            steps.append({"op": "Use", "rpc": r.choice(RPCS), "how": r.choice(["one"] * 8 + ["none", "empty", "dup", "mix", "xim"]), "src": src,
                          "alter": alteration(r) if r.random() < .3 else "", "craft": c})
    return steps
