"""Random request sequences.  They only propose requests; what the answers
must be is decided by the specification alone."""
import random

CAPS = ["GLOBAL_ROOT", "CREATE_ENTITY", "DESTROY_ENTITY", "MODIFY_ENTITY_META", "MODIFY_ENTITY_KEYS",
        "CHANGE_ENTITY_SECRET", "LOCK_ENTITY", "UNLOCK_ENTITY", "CREATE_GROUP", "DESTROY_GROUP",
        "MODIFY_GROUP_META", "MODIFY_GROUP_MEMBERS"]
META = ["PrimaryGroup", "GECOS", "LegalName", "DisplayName", "Home", "Shell", "GraphicalShell", "BadgeNumber"]

# families of names that are easily confused with each other
FAMILIES = [
    ["alice", "Alice", "ali", "alice2"],
    ["al", "al ice", "al_ice", "alal"],
    ["a", "aa", "A", "a "],
    ["x:y", "x", "y", "x:y:z"],
    ["*", "a*", "?", "[a]"],
    ["secret", "meta", "ID", "entities"],
    ["caf\u00e9", "cafe", "cafe\u0301", "CAF\u00c9"],
    ["..a", ".hid", "a.b", "a.dat"],
    ["\u65e5\u672c", "\u65e5", "\u672c", "nihon"],
    ["user1", "user10", "user100", "1"],
    ["INCLUDE:b", "b", "INCLUDE", "EXCLUDE:b"],
    ["and", "or", "not", "(x)"],
    ["%2e", "%", "a%b", "a+b"],
    ["tab\tx", "tab x", "tabx", "\"q\""],
]
BADNAMES = ["", ".", "..", "a/b", "../groups/x", "/entities/alice"]
UMKEYS = [["k", "k{0}", "k{1}", "k2"], ["phone", "phone{10}", "Phone", "pho"], ["*", "a", "a{0}b", "ab"],
          ["k{x}", "k", "k{}", "k{0}{1}"]]
UMVALS = ["v", "a:b", "", "v v", "::", "{0}", "caf\u00e9", "k:v", " v ", "V\n"]
KVKEYS = [["k", "K", "k2", "kk"], ["a", "a b", "*x", ""], ["path/x", "path", "x", "path/"], ["\u00e9", "e", "E", "ee"]]
KTYPES = ["SSH", "ssh", "PGP", "SSH2", ""]
KEYS = [["AAAA", "AAAAB", "AA", "aaaa"], ["k:1", "k", "k:1:2", ""], ["ssh-rsa AA x", "ssh-rsa AA", "AA x", "ssh"]]


def near(r, s):
    """A string that is easily taken for s."""
    return r.choice([str.swapcase, str.upper, str.title, lambda s: s + " ", lambda s: " " + s, lambda s: s + "\t", lambda s: s[:-1],
                     lambda s: s + "x", lambda s: s + s[-1:], lambda s: "x" + s, lambda s: s[1:], lambda s: s[::-1], lambda s: s + "*",
                     lambda s: s.replace(" ", ""), lambda s: s + "\u0301", lambda s: s + ":", lambda s: s + "{0}"])(s) if s else " "


def isbad(x):
    return x in ("", ".", "..") or "/" in x


class G:
    def __init__(self, rng, n_ids=4, n_gs=4, weird=True, cross=.02, miss=.03):
        self.r = rng
        self.cross = cross
        self.miss = miss if weird else 0
        self.metas = META
        self.n = 0
        self.ids = self.pool(n_ids, weird)
        self.gs = self.pool(n_gs, weird)
        if rng.random() < .3 and weird:      # the same names for both
            self.gs = (self.ids[:] + self.gs)[:n_gs]
        self.umk = rng.choice(UMKEYS)
        self.kvk = rng.choice(KVKEYS)
        self.keys = rng.choice(KEYS)
        self.secs = [self.secret() for _ in range(4)]
        # unrelated unique secrets; variants that share prefixes and case
        s = self.secs[0]
        self.secs += [s + "x", s[:-1], s.upper(), s + " "]
        if rng.random() < .6:
            self.metas = rng.sample(META, 3)
        self.last = {}     # id -> secret probably current
        self.steps = []
        self.toks = []
        self.he, self.hg = set(), set()          # probably existing
        self.attr = {}                           # (kind, name) -> keys probably present

    def pool(self, n, weird):
        r = self.r
        if not weird or r.random() < .15:
            return ["n%d" % (i + 1) for i in range(n)]
        f = r.choice(FAMILIES)[:]
        r.shuffle(f)
        while len(f) < n:
            f += [x for x in r.choice(FAMILIES) if x not in f]
        return f[:n]

    def secret(self):
        return "S%08x.%s" % (self.r.getrandbits(32), self.r.choice(["pw", "Pass", "q:z", "\u00fcb"]))

    # ---- choices
    def crossname(self, e):
        """A name that would reach another record if it were a path."""
        r = self.r
        x, y = r.choice(self.ids), r.choice(self.gs)
        return r.choice((["../groups/%s" % y, "../../groups/%s" % y, "./%s" % x, "../entities/%s" % x, "/entities/%s" % x, "%s/" % x] if e else
                         ["../entities/%s" % x, "../../entities/%s" % x, "./%s" % y, "../groups/%s" % y, "../entities/root", "/groups/%s" % y]) + BADNAMES)

    def id(self):
        if self.cross and self.r.random() < self.cross:
            return self.crossname(True)
        if self.miss and self.r.random() < self.miss:
            return near(self.r, self.r.choice(sorted(self.he) or self.ids))
        if self.he and self.r.random() < .7:
            return self.r.choice(sorted(self.he))
        return self.r.choice(self.ids)

    def g(self):
        if self.cross and self.r.random() < self.cross:
            return self.crossname(False)
        if self.miss and self.r.random() < self.miss:
            return near(self.r, self.r.choice(sorted(self.hg) or self.gs))
        if self.hg and self.r.random() < .7:
            return self.r.choice(sorted(self.hg))
        return self.r.choice(self.gs)

    def pick(self, kind, name, pool, p=.7):
        """A key that the record probably has, or any."""
        h = self.attr.get((kind, name))
        if self.miss and self.r.random() < self.miss * 2 and isinstance(pool[0], str):
            return near(self.r, self.r.choice(sorted(h) if h else pool))
        if h and self.r.random() < p:
            return self.r.choice(sorted(h))
        return self.r.choice(pool)

    def has(self, kind, name, key):
        self.attr.setdefault((kind, name), set()).add(key)

    def forget(self, kind, name):
        for k in [k for k in self.attr if k[0][0] == kind and k[1] == name]:
            del self.attr[k]

    def tok(self, root=.8):
        r = self.r
        x = r.random()
        if x < root:
            return {"tok": "T0"}
        if x < root + (1 - root) * .7 and self.toks:
            return {"tok": r.choice(self.toks)}
        return r.choice([{"tok": ""}, {"tok": "!empty"}, {"tok": "!garbage"}, {"tok": "!dup:T0", "tk": "none"},
                         {"tok": "nosuch"}])

    def add(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        self.steps.append(d)
        return d

    # ---- building blocks
    def start(self, ro=False, bid="root", bsec=None):
        self.rootsec = bsec or self.secret()
        self.last[bid] = self.rootsec
        self.add("Restart", ro=ro, bid=bid, bsec=self.rootsec)
        self.add("AuthGetToken", id=bid, sec=self.rootsec, **{"as": "T0"})

    def restart(self, ro=False):
        self.add("Restart", ro=ro)

    def probe(self):
        self.add("Probe", ids=self.ids, gs=self.gs)

    def mkent(self, id, num=None, sec=None, tok=None):
        s = sec or self.r.choice(self.secs)
        t = tok or {"tok": "T0"}
        self.last[id] = s
        if not isbad(id):
            self.he.add(id)
        self.add("EntityCreate", id=id, num=self.num() if num is None else num, sec=s, **t)

    def mkgrp(self, g, mb="", num=None, tok=None):
        t = tok or {"tok": "T0"}
        if not isbad(g):
            self.hg.add(g)
        self.add("GroupCreate", g=g, num=self.num() if num is None else num, dn=self.r.choice(["", "Disp", g]), mb=mb, **t)

    def num(self):
        r = self.r
        return -1 if r.random() < .7 else r.choice([1, 2, 5, 100, 7, 0, r.choice([-7, 2147483646, 2147483647, 9]), int(10 ** r.uniform(1, 6))])

    def new(self, names, have, f):
        """A name to create: usually a free one."""
        free = [x for x in names if x not in have]
        return self.r.choice(free) if free and self.r.random() < .5 else f()

    def gettok(self, id):
        self.add("AuthGetToken", id=id, sec=self.last.get(id, self.secs[0]), **{"as": "t_" + id})
        self.toks = list(set(self.toks + ["t_" + id]))

    def vals(self):
        r = self.r
        return [[r.choice(["v", "", "w w", "\u00e9", "v", "V", " v", "v\n"]), r.choice([0, 1, 2, -3, 7])] for _ in range(r.randrange(0, 4))]

    # ---- one random request of a kind
    def step(self, op, tok=None):
        r = self.r
        t = tok if tok is not None else self.tok()
        a = self.add
        hostile = {"hostile": True} if r.random() < .2 else {}
        if op == "AuthEntity" or op == "AuthGetToken":
            id = self.id()
            s = self.last.get(id) if r.random() < .6 else r.choice(self.secs + [""])
            kw = {}
            if op == "AuthGetToken":
                kw["as"] = "t_" + id
                self.toks = list(set(self.toks + ["t_" + id]))
            a(op, id=id, sec=s or self.secs[0], **kw)
        elif op == "AuthValidateToken":
            a(op, **t)
        elif op == "AuthChangeSecret":
            id = self.id()
            s = r.choice(self.secs)
            o = self.last.get(id, "zzzzzzz") if r.random() < .7 else r.choice(self.secs)
            if t["tok"] == "T0" or (t["tok"] == "t_" + id and o == self.last.get(id)):
                self.last[id] = s
            a(op, id=id, old=o, sec=s, **t)
        elif op == "EntityCreate":
            id = self.new(self.ids, self.he, self.id) if r.random() < .93 else r.choice(BADNAMES)
            if id not in self.last and t["tok"] == "T0":
                self.mkent(id, tok=t)
            else:
                a(op, id=id, num=self.num(), sec=r.choice(self.secs), **t)
            self.steps[-1].update(hostile)
        elif op == "EntityUpdate":
            ks = r.sample(self.metas, r.randrange(0, 4))
            a(op, id=self.id(), meta=[[k, r.choice(["x", "y z", "", "0", "\u00fc", " x ", "X"])] for k in ks], **hostile, **t)
        elif op in ("EntityInfo", "EntityGroups"):
            a(op, id=self.id() if r.random() < .9 else r.choice(BADNAMES))
        elif op == "EntityDestroy":
            id = self.id()
            if t["tok"] == "T0":
                self.last.pop(id, None)
                self.he.discard(id)
                self.forget("E", id)
            a(op, id=id, **t)
        elif op in ("EntityLock", "EntityUnlock"):
            a(op, id=self.id(), **t)
        elif op in ("EntityUM", "GroupUM"):
            act = r.choice(["UPSERT", "UPSERT", "UPSERT", "CLEARFUZZY", "CLEAREXACT", "READ", "READ"]) if r.random() < .97 else r.choice(["ADD", "DROP"])
            kw = {"id": self.id()} if op == "EntityUM" else {"g": self.g()}
            n = kw.get("id", kw.get("g"))
            k = r.choice(self.umk) if act == "UPSERT" else self.pick((op[0], "um"), n, self.umk)
            if act == "UPSERT":
                self.has((op[0], "um"), n, k)
            if act == "READ" and r.random() < .2:
                k = "*"
            a(op, act=act, key=k, val=r.choice(UMVALS), **kw, **t)
        elif op == "EntityKeys":
            act = r.choice(["ADD", "ADD", "ADD", "DROP", "READ"]) if r.random() < .97 else r.choice(["UPSERT", "CLEARFUZZY", "CLEAREXACT"])
            n = self.id()
            ty, k = r.choice(KTYPES if act != "ADD" else KTYPES[:4]), r.choice(self.keys)
            if self.miss and r.random() < .15:
                ty, k = r.choice([(near(r, ty), k), (ty, near(r, k))])
            if act == "DROP" and r.random() < .6:
                ty, k = self.pick(("E", "keys"), n, [(ty, k)], 1)
            if act == "ADD":
                self.has(("E", "keys"), n, (ty, k))
            a(op, id=n, act=act, typ=ty, key=k, **t)
        elif op in ("EntityKVGet", "GroupKVGet"):
            kw = {"id": self.id()} if op[0] == "E" else {"g": self.g()}
            n = kw.get("id", kw.get("g"))
            a(op, key=self.pick((op[0], "kv"), n, self.kvk + ["*"]), **kw)
        elif op.endswith(("KVAdd", "KVReplace", "KVDel")):
            kw = {"id": self.id()} if op[0] == "E" else {"g": self.g()}
            n = kw.get("id", kw.get("g"))
            if not op.endswith("Del"):
                kw["vals"] = self.vals()
            k = r.choice(self.kvk) if op.endswith("Add") else self.pick((op[0], "kv"), n, self.kvk)
            if op.endswith("Add"):
                self.has((op[0], "kv"), n, k)
            elif op.endswith("Del"):
                self.attr.get(((op[0], "kv"), n), set()).discard(k)
            a(op, key=k, **kw, **t)
        elif op == "GroupCreate":
            g = self.new(self.gs, self.hg, self.g) if r.random() < .93 else r.choice(BADNAMES)
            mb = r.choice(["", "", g, self.g(), "nogroup", near(r, r.choice([g, self.g()]))])
            self.mkgrp(g, mb, tok=t)
            self.steps[-1].update(hostile)
        elif op == "GroupUpdate":
            kw = {}
            if r.random() < .6:
                kw["dn"] = r.choice(["d1", "d 2", ""])
            if r.random() < .5:
                kw["mb"] = r.choice(self.gs + ["", self.g()])
            a(op, g=self.g(), **kw, **hostile, **t)
        elif op in ("GroupInfo", "GroupMembers"):
            a(op, g=self.g() if r.random() < .9 else r.choice(BADNAMES))
        elif op == "GroupDestroy":
            g = self.g()
            if t["tok"] == "T0":
                self.hg.discard(g)
                self.forget("G", g)
            a(op, g=g, **t)
        elif op == "GroupUpdateRules":
            a(op, g=self.g(), tgt=self.g() if r.random() < .95 else "nogroup",
              act=r.choice(["INCLUDE", "INCLUDE", "EXCLUDE", "REMOVE_RULE"]), **t)
        elif op in ("GroupAddMember", "GroupDelMember"):
            gs = r.sample(self.gs, min(len(self.gs), r.choice([1, 1, 1, 2, 3])))
            if r.random() < .05:
                gs = gs + ["nogroup"]
            if r.random() < .03:
                gs = []
            a(op, id=self.id(), gs=gs, **t)
        elif op == "SystemCapabilities":
            d = r.random() < .5
            a(op, direct=d, tgt=(self.id() if d else self.g()) if r.random() < .97 else "", act=r.choice(["ADD", "ADD", "DROP"]) if r.random() < .95 else r.choice(["READ", "UPSERT", "CLEARFUZZY", "CLEAREXACT"]),
              cap=r.choice(CAPS[1:] if r.random() < .9 else CAPS), **t)
        elif op == "Malformed":
            a(op, rpc=r.choice(RPCS), variant=r.randrange(6), **t)
        elif op in ("EntitySearch", "GroupSearch"):
            a(op, expr=r.choice(["ID:" + self.id(), "*", "secret:" + r.choice(self.secs)]))
        else:
            a(op, **t)


RPCS = ["EntityCreate", "EntityUpdate", "EntityInfo", "EntitySearch", "EntityUM", "EntityKVGet", "EntityKVAdd",
        "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups",
        "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret", "GroupCreate", "GroupUpdate",
        "GroupInfo", "GroupUM", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules",
        "GroupAddMember", "GroupDelMember", "GroupDestroy", "GroupMembers", "GroupSearch", "SystemCapabilities"]

def message(r, g, rpc):
    """Any message of the right type, most parts missing or odd."""
    def opt(d, k, f, p=.6):
        if r.random() < p:
            d[k] = f()
    def s(pool):
        x = r.random()
        return r.choice(pool) if x < .7 else "" if x < .8 else r.choice(BADNAMES + ["x" * 5000, "\u0000", "*", "a b", "%s%d", "\ufffd", "nobody"])
    ids, gs = g.ids + ["root"], g.gs
    umk = g.umk

    def kvd():
        d = {"Key": r.choice(g.kvk + [""])}
        opt(d, "Values", lambda: [dict({"Value": "v"}, **({"Index": r.choice([0, -1, 2147483647])} if r.random() < .5 else {})) for _ in range(r.randrange(3))])
        return d

    def meta():
        d = {}
        for k in META:
            opt(d, k, lambda: s(["x", "y"]), .15)
        opt(d, "Groups", lambda: [s(gs) for _ in range(r.randrange(4))], .4)
        opt(d, "Locked", lambda: r.random() < .5, .2)
        opt(d, "Capabilities", lambda: [r.choice([0, 10, 999, -1])], .2)
        opt(d, "Keys", lambda: [r.choice(["SSH:x", "nosep", ""])], .2)
        opt(d, "UntypedMeta", lambda: [r.choice(["a:b", "a", ":", "", "a:b:c"])], .2)
        opt(d, "KV", lambda: [kvd()], .2)
        return d

    def ent():
        d = {}
        opt(d, "ID", lambda: s(ids), .8)
        opt(d, "Number", lambda: r.choice([-1, -2, 0, 7, 2147483647, -2147483648]), .4)
        opt(d, "secret", lambda: s(["pw"]), .5)
        opt(d, "meta", meta, .5)
        return d

    def grp():
        d = {}
        opt(d, "Name", lambda: s(gs), .8)
        opt(d, "DisplayName", lambda: s(["d"]), .3)
        opt(d, "Number", lambda: r.choice([-1, -2, 0, 7, 2147483647]), .4)
        opt(d, "Expansions", lambda: [r.choice(["INCLUDE:x", "x", "", ":", "EXCLUDE:" + r.choice(gs)])], .2)
        opt(d, "ManagedBy", lambda: s(gs), .3)
        opt(d, "Capabilities", lambda: [r.choice([0, 10, 999])], .2)
        opt(d, "KV", lambda: [kvd()], .2)
        return d
    m = {}
    if rpc in ("EntityUM", "GroupUM", "EntityKeys"):
        opt(m, "Target", lambda: s(gs if rpc[0] == "G" else ids), .85)
        opt(m, "Action", lambda: r.choice([1, 2, 3, 4, 5, 6, 7, 98, 99]), .8)
        opt(m, "Key", lambda: s(KTYPES if rpc == "EntityKeys" else umk + ["k{", "}{", "{0", "k{99999999999999999999}"]), .7)
        opt(m, "Value", lambda: s(["v", ":", "a:b"]), .6)
    elif "KV" in rpc:
        opt(m, "Target", lambda: s(gs if rpc[0] == "G" else ids), .85)
        opt(m, "Data", kvd, .7)
    elif rpc.startswith("Auth"):
        opt(m, "Entity", ent, .8)
        opt(m, "Secret", lambda: s(["pw"]), .5)
        opt(m, "Token", lambda: s(["t"]), .2)
    elif rpc.endswith("Search"):
        opt(m, "expression", lambda: r.choice(["", "((", "a:", "\"", "*", "**", "ID:", "+", "-", "+-", "ID:a^", "a~", "a~99", "[1 TO", "/[/", "/(/", "\\", "Number:>x",
                                               "Number:>", "a b c", "+ID:*", "ID:?", ":", "::", "\u0000", "x" * 3000, "/" + "(a*)*" * 40 + "/", "a:b:c", "^", "ID:\"a b\"~"]), .9)
    elif rpc == "SystemCapabilities":
        opt(m, "Capability", lambda: r.choice([0, 10, 11, 23]), .7)
        opt(m, "Direct", lambda: r.random() < .5, .7)
        opt(m, "Target", lambda: s(ids + gs), .8)
        opt(m, "Action", lambda: r.choice([1, 2, 3, 4, 5]), .7)
    elif rpc == "GroupUpdateRules":
        opt(m, "Group", grp, .8)
        opt(m, "Target", grp, .8)
        opt(m, "RuleAction", lambda: r.choice([1, 2, 3, 99]), .8)
    elif rpc.startswith("Group") and rpc not in ("GroupAddMember", "GroupDelMember"):
        opt(m, "Group", grp, .85)
        opt(m, "Data", grp, .3)
    else:
        opt(m, "Entity", ent, .85)
        opt(m, "Data", ent, .4)
    return m


def weird(rng, n=60, ro=False):
    """Incomplete and odd messages among ordinary requests."""
    g = soup(rng, n=4, holders=.3, probe=0, ro=ro)
    r = rng
    for k in range(n):
        x = r.random()
        if x < .75:
            rpc = r.choice(RPCS)
            g.add("Malformed", rpc=rpc, msg=message(r, g, rpc), **g.tok(.85))
        elif x < .85:
            g.add("Malformed", rpc=r.choice(RPCS), variant=r.randrange(6), **g.tok(.7))
        else:
            g.step(r.choice(list(SOUP)), g.tok(.9))
        if k % 12 == 11:
            g.probe()
    g.probe()
    g.restart()
    g.probe()
    return g


def malformed_all(rng, part, parts):
    """Every request with every kind of incomplete message."""
    g = soup(rng, n=4, holders=.3, probe=0)
    k = 0
    for rpc in RPCS:
        for v in range(6):
            for t in ("T0", "", "!garbage"):
                k += 1
                if k % parts == part:
                    g.add("Malformed", rpc=rpc, variant=v, tok=t)
    g.probe()
    return g


SOUP = {"AuthEntity": 3, "AuthGetToken": 3, "AuthValidateToken": 1, "AuthChangeSecret": 3, "EntityCreate": 6,
        "EntityUpdate": 3, "EntityInfo": 1, "EntityGroups": 2, "EntityDestroy": 2, "EntityLock": 2, "EntityUnlock": 2,
        "EntityUM": 4, "EntityKeys": 3, "EntityKVGet": 1, "EntityKVAdd": 3, "EntityKVReplace": 2, "EntityKVDel": 2,
        "GroupCreate": 6, "GroupUpdate": 3, "GroupInfo": 1, "GroupMembers": 2, "GroupDestroy": 2, "GroupUM": 4,
        "GroupKVGet": 1, "GroupKVAdd": 3, "GroupKVReplace": 2, "GroupKVDel": 2, "GroupUpdateRules": 6,
        "GroupAddMember": 5, "GroupDelMember": 2, "SystemCapabilities": 3, "Malformed": 1}


def soup(rng, weights=None, n=40, setup=True, tokroot=.8, probe=10, ro=False, holders=0, managed=0, boots=0, restarts=0, **kw):
    """A random walk over the whole interface."""
    g = G(rng, **kw)
    g.start()
    r = rng
    if setup:
        for x in g.ids[:3]:
            g.mkent(x)
        for x in g.gs[:3]:
            g.mkgrp(x, r.choice([y for y in g.gs if y in g.hg] + [x]) if r.random() < managed else "")
        if holders:
            for x in g.ids[:3]:
                for _ in range(r.randrange(0, 2)):
                    g.add("GroupAddMember", id=x, gs=[r.choice(g.gs[:3])], tok="T0")
                if r.random() < holders:
                    for c in r.sample(CAPS[1:], r.randrange(0, 4)):
                        d = r.random() < .7
                        g.add("SystemCapabilities", direct=d, tgt=x if d else r.choice(g.gs[:3]), act="ADD", cap=c, tok="T0")
                g.gettok(x)
    if ro:
        g.restart(True)
    w = weights or SOUP
    ops, ws = list(w), list(w.values())
    for k in range(n):
        if restarts and r.random() < restarts:
            g.probe()
            if boots and r.random() < boots:
                x = g.id() if r.random() < .7 else r.choice(g.ids + ["root"])
                s = r.choice(g.secs)
                g.last[x] = s
                if not isbad(x):
                    g.he.add(x)
                g.add("Restart", ro=False, bid=x, bsec=s)
            else:
                g.restart(ro and r.random() < .7)
            g.probe()
        g.step(rng.choices(ops, ws)[0], None if tokroot is None else g.tok(tokroot))
        if probe and k % probe == probe - 1:
            g.probe()
    g.probe()
    g.restart(False)
    g.probe()
    return g


def real(g, r, kills=.1, max=80):
    """The same sequence against a netauthd process: what cannot be arranged
    there is left out, and instead it is killed at any time."""
    out = []
    for s in g.steps:
        if s["op"] in ("Fault", "Crash"):
            s = dict(s["call"])
            if r.random() < .5:
                s = {"op": "Crash", "call": s, "us": int(10 ** r.uniform(1.5, 4)), "ro": False}
        elif s["op"] == "Par":
            s = dict(s, strategy="free")
        elif s["op"] == "Restart" and ":" in s.get("bid", ""):
            s = {"op": "Restart", "ro": s["ro"]}
        out.append(s)
        if len(out) >= max:
            break
    g.steps = out
    return g


# ---- searches ----------------------------------------------------------------

SVALS = ["zsh", "bash", "x1", "x2", "x10"]


def queries(r, g, n):
    """Search requests whose exact answer the specification knows."""
    out = []
    for _ in range(n):
        if r.random() < .55:
            f = r.choice(["ID", "Number", "meta", "meta", "meta", "group", "all", "none"])
            if f == "ID":
                v = r.choice(g.ids)
                out.append({"op": "EntitySearch", "expr": "ID:" + v, "q": {"f": "ID", "v": v}})
            elif f == "Number":
                v = r.choice([1, 2, 3, 5, 7, 100, 101])
                out.append({"op": "EntitySearch", "expr": "+Number:>=%d +Number:<=%d" % (v, v), "q": {"f": "Number", "n": v}})
            elif f == "meta":
                k, v = r.choice(META), r.choice(SVALS)
                out.append({"op": "EntitySearch", "expr": "meta.%s:%s" % (k, v), "q": {"f": k, "v": v}})
            elif f == "group":
                v = r.choice(g.gs)
                out.append({"op": "EntitySearch", "expr": "meta.Groups:" + v, "q": {"f": "group", "v": v}})
            elif f == "all":
                out.append({"op": "EntitySearch", "expr": "*", "q": {"f": "all"}})
            else:
                out.append(secret_query(r, g))
        else:
            f = r.choice(["Name", "Number", "DisplayName", "DisplayName", "ManagedBy", "ManagedBy", "all"])
            if f == "Number":
                v = r.choice([1, 2, 3, 5, 7, 100, 101])
                out.append({"op": "GroupSearch", "expr": "+Number:>=%d +Number:<=%d" % (v, v), "q": {"f": "Number", "n": v}})
            elif f == "all":
                out.append({"op": "GroupSearch", "expr": "*", "q": {"f": "all"}})
            else:
                v = r.choice(SVALS) if f == "DisplayName" else r.choice(g.gs)
                out.append({"op": "GroupSearch", "expr": "%s:%s" % (f, v), "q": {"f": f, "v": v}})
    return out


def secret_query(r, g):
    """Attempts to test a guess of a secret."""
    s = r.choice(g.secs + [g.rootsec])
    e = r.choice(["secret:%s", "Secret:%s", "secret:\"%s\"", "+secret:\"%s\"", "secret:%s*", "secret:/%s.*/", "/%s.*/", "\"%s\"", "%s",
                  "meta.secret:%s", "meta.Secret:%s", "Entity.secret:%s", "secret:%s~1"])
    x = s
    if r.random() < .3:
        x = s.lower()
    if r.random() < .3:
        x = s[:5]
    x = x.split(".")[0]
    return {"op": "EntitySearch", "expr": e % x, "q": {"f": "none"}}


def plainpool(rng, k):
    f = rng.choice([["n1", "n10", "n2", "n100"], ["al", "alx", "bob", "bobx"], ["u1", "u2", "u3", "u33"]])
    return f[:k]


def searchy(rng, n=45, restarts=.05, wild=.1, secrets=.05):
    """Changes of indexed fields with searches for them."""
    g = G(rng, n_ids=4, n_gs=3, weird=False, cross=0)
    g.ids = plainpool(rng, 4)
    g.gs = ["g" + x for x in plainpool(rng, 4)] if rng.random() < .7 else plainpool(rng, 4)
    g.start()
    for x in g.ids[:2]:
        g.mkent(x)
    for x in g.gs[:2]:
        g.mkgrp(x)
    r = rng
    known = queries(r, g, 12)
    for k in range(n):
        x = r.random()
        if x < .12:
            g.step("EntityCreate", {"tok": "T0"})
        elif x < .2:
            g.step("EntityDestroy", {"tok": "T0"})
        elif x < .42:
            ks = r.sample(META, r.randrange(1, 4))
            g.add("EntityUpdate", id=g.id(), meta=[[m, r.choice(SVALS + [""])] for m in ks], tok="T0")
        elif x < .5:
            g.step(r.choice(["GroupAddMember", "GroupDelMember"]), {"tok": "T0"})
        elif x < .6:
            g.mkgrp(g.g(), r.choice(["", g.g()]))
            g.steps[-1]["dn"] = r.choice(SVALS + [""])
        elif x < .66:
            g.step("GroupDestroy", {"tok": "T0"})
        elif x < .82:
            kw = {}
            if r.random() < .6:
                kw["dn"] = r.choice(SVALS + [""])
            if r.random() < .6:
                kw["mb"] = r.choice(g.gs + [""])
            g.add("GroupUpdate", g=g.g(), tok="T0", **kw)
        elif x < .9:
            g.step(r.choice(["EntityLock", "EntityKVAdd", "SystemCapabilities", "AuthChangeSecret", "GroupUpdateRules"]), {"tok": "T0"})
        elif x < .9 + wild:
            e = r.choice(["*", "n*", "g*", "-ID:n1", "+ID:n1 +meta.Shell:zsh", "ID:n1 ID:n2", "/.*/", "zsh", "x1", "LOCKED", "Number:>0", "Number:<0"])
            g.add(r.choice(["EntitySearch", "GroupSearch"]), expr=e)
        for q in (r.sample(known, 2) + queries(r, g, 2)):
            g.steps.append(dict(q))
        if r.random() < secrets:
            g.steps += [secret_query(r, g) for _ in range(3)]
        if r.random() < restarts:
            some = r.sample(known, 6)
            g.steps += [dict(q) for q in some]
            g.restart()
            g.steps += [dict(q) for q in some]
    some = known + queries(r, g, 8)
    g.steps += [dict(q) for q in some]
    g.restart()
    g.steps += [dict(q) for q in some]
    return g


def restarty(rng, n=24, weights=None, backend=None):
    """All answers before and after a restart over the same data."""
    weird = rng.random() < .5
    g = soup(rng, weights, n=6, holders=.5, managed=.4, probe=0, weird=weird)
    r = rng
    qs = queries(r, g, 8)
    if weird:       # the exact answers are known for plain names only
        qs = [dict(q, q={"f": "any" if q["q"]["f"] != "none" else "none"}) for q in qs]
    w = weights or SOUP
    ops, ws = list(w), list(w.values())

    def ask():
        g.probe()
        g.steps.extend(dict(q) for q in qs)
        for x in g.ids[:3]:
            g.add("AuthGetToken", id=x, sec=g.last.get(x, g.secs[0]), **{"as": "t_" + x})
    for k in range(n):
        g.step(r.choices(ops, ws)[0], g.tok(.9))
        if k % 4 == 3:
            ask()
            g.restart()
            ask()
    return g


# ---- many of everything ------------------------------------------------------

def crowd(rng, kind=None):
    """More records, rules, memberships or values than fit a small model."""
    r = rng
    kind = kind or r.choice(["records", "chain", "wide", "lists", "long"])
    g = G(rng, n_ids=4, n_gs=4, weird=False, cross=0)
    g.start()
    t = {"tok": "T0"}
    some = lambda l, k: r.sample(l, min(k, len(l)))

    def look(ids, gs, k=5):
        g.add("Probe", ids=some(ids, k), gs=some(gs, k))
    if kind == "records":
        n = r.choice([40, 70, 140])
        ids, gs = ["u%d" % i for i in range(n)], ["t%d" % i for i in range(n // 2)]
        for x in ids:
            g.mkent(x, num=r.choice([-1, -1, -1, r.randrange(1, 4 * n)]))
        for x in gs:
            g.mkgrp(x, num=-1)
        for x in some(ids, 12):
            g.add("GroupAddMember", id=x, gs=[gs[0]], **t)
        def ask():
            look(ids, gs)
            g.add("EntitySearch", expr="*", q={"f": "all"})
            g.add("GroupSearch", expr="*", q={"f": "all"})
            for x in some(ids, 3) + ["u1", "u10"]:
                g.add("EntitySearch", expr="ID:" + x, q={"f": "ID", "v": x})
            g.add("EntitySearch", expr="meta.Groups:" + gs[0], q={"f": "group", "v": gs[0]})
        ask()
        for x in some(ids, n // 4):
            g.add("EntityDestroy", id=x, **t)
        for x in some(gs, n // 8):
            g.add("GroupDestroy", g=x, **t)
        for x in some(ids, n // 8):
            g.mkent(x, num=-1)
        for x in some(gs, n // 10):
            g.mkgrp(x, num=-1)
        ask()
        g.restart()
        ask()
        g.mkent("last", num=-1)
        g.mkgrp("last", num=-1)
    elif kind == "chain":
        n = r.choice([9, 14, 20])
        gs = ["c%d" % i for i in range(n)]
        for x in gs:
            g.mkgrp(x, num=-1)
        for x in g.ids:
            g.mkent(x)
        links = [(gs[i], gs[i + 1]) for i in range(n - 1)]
        if r.random() < .5:
            r.shuffle(links)
        g.add("GroupAddMember", id=g.ids[0], gs=[gs[-1]], **t)
        g.add("GroupAddMember", id=g.ids[1], gs=[gs[n // 2], gs[0]], **t)
        g.add("GroupAddMember", id=g.ids[2], gs=[gs[0]], **t)
        g.add("SystemCapabilities", direct=False, tgt=gs[0], act="ADD", cap="LOCK_ENTITY", **t)
        ex = r.choice([None, n // 2, n - 2, 1])
        for a, b in links:
            g.add("GroupUpdateRules", g=a, tgt=b, act="EXCLUDE" if ex is not None and a == gs[ex] else "INCLUDE", **t)
        for k in range(5):
            i = r.randrange(n)
            j = r.randrange(i, n)
            g.add("GroupUpdateRules", g=gs[n - 1 if k < 2 else j], tgt=gs[0 if k == 0 else i], act=r.choice(["INCLUDE", "EXCLUDE"]), **t)
            look(g.ids, gs)
            g.gettok(g.ids[0])
        for k in range(6):
            x = r.random()
            a, b = r.choice(links)
            if x < .3:
                g.add("GroupUpdateRules", g=a, tgt=b, act="REMOVE_RULE", **t)
            elif x < .5:
                g.add("GroupDestroy", g=a, **t)
            elif x < .7:
                g.mkgrp(a, num=-1)
            elif x < .85:
                g.add("GroupUpdateRules", g=a, tgt=b, act=r.choice(["INCLUDE", "EXCLUDE"]), **t)
            else:
                g.add(r.choice(["GroupAddMember", "GroupDelMember"]), id=r.choice(g.ids), gs=[r.choice(gs)], **t)
            look(g.ids, gs)
            g.add("EntityGroups", id=g.ids[0])
            g.gettok(g.ids[0])
        g.restart()
        g.add("Probe", ids=g.ids, gs=gs)
    elif kind == "wide":
        n = r.choice([12, 25, 40])
        gs = ["w%d" % i for i in range(n)]
        for x in gs:
            g.mkgrp(x, mb=r.choice(["", "w0", "hub"]) if x != "w0" else "", num=-1)
            if x == "w0":
                g.mkgrp("hub", num=-1)
        for x in g.ids:
            g.mkent(x)
        for x in gs:
            if r.random() < .8:
                g.add("GroupUpdateRules", g="hub", tgt=x, act=r.choice(["INCLUDE", "INCLUDE", "EXCLUDE"]), **t)
        for x in some(gs, 12):
            g.add("SystemCapabilities", direct=False, tgt=x, act="ADD", cap=r.choice(CAPS[1:]), **t)
        g.add("GroupAddMember", id=g.ids[0], gs=some(gs, n // 2), **t)
        g.add("GroupAddMember", id=g.ids[1], gs=some(gs, n), **t)
        g.add("GroupAddMember", id=g.ids[2], gs=[gs[-1]], **t)
        for k in range(14):
            x = g.ids[k % 3]
            a = r.choice(gs)
            g.gettok(x)
            tk = {"tok": r.choice(["T0", "t_" + x])}
            y = r.random()
            if y < .25:
                g.add("GroupDelMember", id=x, gs=some(gs, 4), **tk)
            elif y < .45:
                g.add("GroupAddMember", id=r.choice(g.ids), gs=some(gs, 3), **tk)
            elif y < .65:
                g.add("GroupUpdateRules", g="hub", tgt=a, act=r.choice(["REMOVE_RULE", "INCLUDE", "EXCLUDE"]), **tk)
            elif y < .8:
                g.add("GroupUpdate", g=a, dn=r.choice(["d1", "d2"]), **tk)
            else:
                g.add("GroupDestroy", g=a, **t)
                g.mkgrp(a, num=-1)
            look(g.ids, gs + ["hub"])
            g.add("GroupMembers", g="hub")
        g.restart()
        look(g.ids, gs + ["hub"], 8)
    elif kind == "lists":
        x, y = g.ids[0], g.gs[0]
        g.mkent(x)
        g.mkgrp(y)
        n = r.choice([12, 30, 60])
        ks = ["k%d" % i for i in range(n)] + ["k{%d}" % i for i in range(n // 3)]
        who = lambda op: {"id": x} if op[0] == "E" else {"g": y}
        for k in ks:
            op = r.choice(["EntityUM", "GroupUM"])
            g.add(op, act="UPSERT", key=k, val=r.choice(UMVALS), **who(op), **t)
            if "{" not in k:
                op = r.choice(["EntityKV", "GroupKV"])
                g.add(op + "Add", key=k, vals=[["v%d" % j, j] for j in range(r.choice([1, 2, 14]))], **who(op), **t)
                g.add("EntityKeys", id=x, act="ADD", typ=r.choice(["ssh", "pgp"]), key=k, **t)
        for _ in range(30):
            k = r.choice(ks)
            op = r.choice(["EntityUM", "GroupUM", "EntityKeys", "EntityKV", "GroupKV"])
            if op.endswith("UM"):
                g.add(op, act=r.choice(["UPSERT", "CLEAREXACT", "CLEARFUZZY", "READ"]), key=k, val="w", **who(op), **t)
            elif op == "EntityKeys":
                g.add(op, id=x, act=r.choice(["ADD", "DROP", "READ"]), typ=r.choice(["ssh", "pgp", ""]), key=k, **t)
            else:
                a = r.choice(["Get", "Add", "Replace", "Del"])
                kw = {"vals": [["w%d" % j, -j] for j in range(r.choice([0, 3, 11]))]} if a in ("Add", "Replace") else {}
                g.add(op + a, key=k, **kw, **who(op), **t)
        for op in ("EntityUM", "GroupUM"):
            g.add(op, act="READ", key="*", val="", tok="", **who(op))
            g.add(op, act="READ", key="k", val="", tok="", **who(op))
            g.add(op, act="CLEARFUZZY", key="k{3}", val="", **who(op), **t)
        g.add("EntityKVGet", id=x, key="*")
        g.add("GroupKVGet", g=y, key="*")
        g.restart()
        g.probe()
    else:
        big = lambda n: "".join(r.choice("abcdefgh") for _ in range(8)) * (n // 8)
        x, y = "e" + big(r.choice([64, 120, 180])), "g" + big(r.choice([64, 120, 180]))
        g.ids, g.gs = [x, x[:-1], x + "z", "e"], [y, y[:-1], y + "z", "g"]
        for a in g.ids:
            g.mkent(a, sec="S" + big(56))
        for a in g.gs:
            g.mkgrp(a)
        v = big(r.choice([1000, 5000, 70000]))
        w = "Q" + big(64)
        g.secs = [w, w[:-1], w + "x", "Z" + w]
        g.umk = [v[:300], v[:299], v[:301], "k"]
        g.kvk = [v[:400], v[:399], v[:401], "k"]
        g.keys = [v, v[:-1], v + "x", "k"]
        g.add("EntityUpdate", id=x, meta=[["GECOS", v], ["Shell", v[:-1]]], **t)
        g.add("GroupUpdate", g=y, dn=v, mb=g.gs[1], **t)
        for k in range(50):
            g.step(r.choice(MUTATE + ["AuthEntity", "EntityKVGet", "GroupKVGet"]), g.tok(.95))
            if k % 6 == 5:
                g.probe()
        g.probe()
        g.restart()
        g.probe()
    return g


# ---- storage failures ------------------------------------------------------

MUTATE = ["EntityCreate", "EntityUpdate", "EntityUM", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy",
          "EntityLock", "EntityUnlock", "GroupCreate", "GroupUpdate", "GroupUM", "GroupKVAdd", "GroupKVDel", "GroupKVReplace",
          "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "AuthChangeSecret", "SystemCapabilities"]


def wrap_last(g, **kw):
    c = g.steps.pop()
    d = dict(kw)
    d["call"] = c
    g.steps.append(d)


def faulty(rng, n=30, op="Fault", ops=None, probe=True):
    """A random walk in which storage accesses fail (or the server dies)."""
    g = G(rng, n_ids=6, n_gs=6)
    r = rng
    g.start()
    for x in g.ids[:3]:
        g.mkent(x)
    for x in g.gs[:3]:
        g.mkgrp(x)
    for x in g.ids[:2]:
        g.add("GroupAddMember", id=x, gs=[g.gs[0]], tok="T0")
    g.add("GroupUpdateRules", g=g.gs[0], tgt=g.gs[1], act="INCLUDE", tok="T0")
    for x in g.ids[:2]:
        g.add("EntityKVAdd", id=x, key=g.kvk[0], vals=[["v", 0]], tok="T0")
        g.has(("E", "kv"), x, g.kvk[0])
    for x in g.gs[:2]:
        g.add("GroupKVAdd", g=x, key=g.kvk[0], vals=[["v", 0]], tok="T0")
        g.has(("G", "kv"), x, g.kvk[0])
    for _ in range(n):
        save = (dict(g.last), set(g.he), set(g.hg))
        if r.random() < .1 and op == "Fault":
            g.step("AuthEntity", g.tok(.95))
        else:
            g.step(r.choice(ops or MUTATE + ["EntityCreate", "GroupCreate"] * 2), g.tok(.95))
        if r.random() < .8:
            if op == "Fault":
                wrap_last(g, op="Fault", kind=r.choice(["Put", "Get", "Get", "Del", "Keys", "", ""]), n=r.choice([1, 1, 2, 3, 4, r.randint(1, 9)]))
            else:
                wrap_last(g, op="Crash", n=r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]), after=r.random() < .5, ro=False)
            if r.random() < .5:
                g.last, g.he, g.hg = save
        if probe and r.random() < .5:
            g.probe()
    g.probe()
    g.restart()
    g.probe()
    return g


def shaky(rng, n=40, ops=None):
    """Queries during which storage accesses fail: they fail or are right."""
    g = G(rng, n_ids=4, n_gs=4, weird=False, cross=0)
    r = rng
    g.ids, g.gs = plainpool(r, 4), ["g" + x for x in plainpool(r, 4)]
    g.start()
    for x in g.ids[:3]:
        g.mkent(x)
    for x in g.gs:
        g.mkgrp(x)
    for x in g.ids[:3]:
        g.add("GroupAddMember", id=x, gs=r.sample(g.gs, 2), tok="T0")
        g.add("EntityUpdate", id=x, meta=[[m, r.choice(SVALS)] for m in r.sample(META, 2)], tok="T0")
        g.add("SystemCapabilities", direct=True, tgt=x, act="ADD", cap=r.choice(CAPS[1:]), tok="T0")
    for x in g.gs[:3]:
        g.add("GroupUpdateRules", g=x, tgt=r.choice(g.gs), act=r.choice(["INCLUDE", "INCLUDE", "EXCLUDE"]), tok="T0")
        g.add("GroupUpdate", g=x, dn=r.choice(SVALS), tok="T0")
        g.add("SystemCapabilities", direct=False, tgt=x, act="ADD", cap=r.choice(CAPS[1:]), tok="T0")
    ops = ops or ["EntityInfo", "GroupInfo", "EntityGroups", "GroupMembers", "EntityKVGet", "GroupKVGet", "search", "search", "search",
                  "AuthEntity", "AuthGetToken", "AuthGetToken", "UM", "keys"]
    for _ in range(n):
        if r.random() < .25:
            g.step(r.choice(["EntityKVAdd", "GroupKVAdd", "EntityUM", "EntityKeys", "GroupAddMember", "GroupDelMember", "GroupUpdateRules",
                             "SystemCapabilities", "EntityLock", "EntityUnlock", "AuthChangeSecret"]), {"tok": "T0"})
            continue
        o = r.choice(ops)
        if o == "search":
            g.steps += queries(r, g, 1)
        elif o == "UM":
            g.add("EntityUM", id=g.id(), act="READ", key=r.choice(g.umk), val="", tok="T0")
        elif o == "keys":
            g.add("EntityKeys", id=g.id(), act="READ", typ="", key="", tok="T0")
        else:
            g.step(o, {"tok": "T0"})
        if r.random() < .85:
            wrap_last(g, op="Fault", kind=r.choice(["Get", "Get", "Get", "Put", "Keys", ""]), n=r.choice([1, 1, 2, 2, 3, 4, r.randint(1, 9)]), late=True)
    g.probe()
    return g


# ---- concurrency ----------------------------------------------------------

STRATEGIES = ("readsfirst", "writesfirst", "groupslast", "free", "hold", "hold", "hold2")
READS = ["EntityInfo", "GroupInfo", "EntityKVGet", "GroupKVGet", "EntityUMRead", "GroupUMRead", "KeysRead", "AuthEntity"]
MEMQ = ["EntityGroups", "GroupMembers"]


def parcall(g, r, mode):
    """One request of a concurrent branch; few targets, so they collide."""
    s = len(g.steps)
    if r.random() < .2 and mode == "reads":
        k = r.choice(READS)
        if k == "EntityUMRead":
            g.add("EntityUM", id=g.id(), act="READ", key="*", val="", tok="T0")
        elif k == "GroupUMRead":
            g.add("GroupUM", g=g.g(), act="READ", key="*", val="", tok="T0")
        elif k == "KeysRead":
            g.add("EntityKeys", id=g.id(), act="READ", typ="", key="", tok="T0")
        else:
            g.step(k, {"tok": "T0"})
    elif r.random() < .2 and mode == "members":
        g.step(r.choice(MEMQ), {"tok": "T0"})
    else:
        ops = MUTATE
        g.step(r.choice(ops), g.tok(.85))
    c = g.steps.pop()
    del g.steps[s:]
    c.pop("hostile", None)
    return c


def parallel(rng, blocks=6, strategies=STRATEGIES, focus=None, rets=.4):
    g = G(rng, n_ids=3, n_gs=3, weird=rng.random() < .4)
    r = rng
    g.start()
    nid, ng = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    g.ids, g.gs = g.ids[:nid], g.gs[:ng]
    for x in g.ids:
        if r.random() < .8:
            g.mkent(x)
    for x in g.gs:
        if r.random() < .8:
            g.mkgrp(x, r.choice(g.gs) if r.random() < .4 else "")
    for x in g.ids[:2]:
        if r.random() < .5:
            g.add("GroupAddMember", id=x, gs=[r.choice(g.gs)], tok="T0")
        g.gettok(x)
    for b in range(blocks):
        mode = r.choice(["reads", "members", "mods"])
        nb = r.choice([2, 2, 3])
        f = focus or r.choice([None, None, None, "ecreate", "gcreate", "same-e", "same-g", "rules", "numbers", "gone"])
        brs = []
        for k in range(nb):
            calls = []
            for _ in range(r.choice([1, 1, 2]) if nb < 3 else 1):
                if f == "ecreate":
                    s = r.choice(g.secs)
                    calls.append({"op": "EntityCreate", "id": r.choice(g.ids), "num": -1, "sec": s, "tok": "T0"})
                elif f == "gcreate":
                    calls.append({"op": "GroupCreate", "g": r.choice(g.gs), "num": -1, "dn": r.choice(["a", "b"]), "mb": "", "tok": "T0"})
                elif f == "numbers":
                    if r.random() < .5:
                        calls.append({"op": "EntityCreate", "id": "p%d" % r.randrange(100), "num": -1, "sec": r.choice(g.secs), "tok": "T0"})
                    else:
                        calls.append({"op": "GroupCreate", "g": "p%d" % r.randrange(100), "num": -1, "dn": "", "mb": "", "tok": "T0"})
                elif f == "gone":
                    # an end beside requests that already looked
                    x, y = r.choice(g.ids), r.choice(g.gs)
                    calls.append(r.choice([{"op": "EntityDestroy", "id": x, "tok": "T0"}, {"op": "GroupDestroy", "g": y, "tok": "T0"}]) if k == 0 else
                                 dict(r.choice([{"op": "EntityGroups", "id": x}, {"op": "EntityGroups", "id": x}, {"op": "GroupMembers", "g": y},
                                                {"op": "GroupAddMember", "id": x, "gs": [y]}, {"op": "SystemCapabilities", "direct": True, "tgt": x, "act": "ADD", "cap": "LOCK_ENTITY"},
                                                {"op": "EntityCreate", "id": x, "num": -1, "sec": r.choice(g.secs)}]), tok="T0"))
                elif f == "rules" and len(g.gs) > 1:
                    x, y = r.sample(g.gs, 2)
                    calls.append({"op": "GroupUpdateRules", "g": x, "tgt": y, "act": r.choice(["INCLUDE", "EXCLUDE", "REMOVE_RULE"]), "tok": "T0"})
                elif f in ("same-e", "same-g"):
                    sub = [o for o in MUTATE if (o.startswith("Entity") or o in ("GroupAddMember", "GroupDelMember", "AuthChangeSecret")) == (f == "same-e")
                           and o not in ("EntityDestroy", "GroupDestroy", "EntityCreate", "GroupCreate")]
                    n0 = len(g.steps)
                    g.step(r.choice(sub), {"tok": "T0"})
                    c = g.steps.pop()
                    del g.steps[n0:]
                    if "id" in c:
                        c["id"] = g.ids[0]
                    if "g" in c:
                        c["g"] = g.gs[0]
                    c.pop("hostile", None)
                    calls.append(c)
                else:
                    calls.append(parcall(g, r, mode))
            brs.append(calls)
        g.add("Par", branches=brs, seed=r.randrange(1 << 30), strategy=r.choice(strategies), rets=r.random() < rets)
        if r.random() < .6:
            g.probe()
    g.probe()
    g.restart()
    g.probe()
    return g


def parsearch(rng, blocks=6, strategies=STRATEGIES):
    """Searches beside changes, and the same searches afterwards."""
    g = G(rng, n_ids=3, n_gs=3, weird=False, cross=0)
    g.ids = plainpool(rng, 3)
    g.gs = ["g" + x for x in plainpool(rng, 3)]
    r = rng
    g.start()
    for x in g.ids[:2]:
        g.mkent(x)
    for x in g.gs[:2]:
        g.mkgrp(x)

    def change():
        n = len(g.steps)
        x = r.random()
        if x < .35:
            g.add("EntityUpdate", id=g.id(), meta=[[m, r.choice(SVALS + [""])] for m in r.sample(META, r.randrange(1, 3))], tok="T0")
        elif x < .5:
            g.add("GroupUpdate", g=g.g(), dn=r.choice(SVALS), tok="T0")
        else:
            g.step(r.choice(["EntityCreate", "EntityDestroy", "GroupCreate", "GroupDestroy", "GroupAddMember", "GroupDelMember"]), {"tok": "T0"})
        c = g.steps.pop()
        del g.steps[n:]
        c.pop("hostile", None)
        return c
    for b in range(blocks):
        nb = r.choice([2, 2, 3])
        qs = [q for q in queries(r, g, 12) if q["q"]["f"] not in ("none", "any")]
        brs = [[change() for _ in range(r.choice([1, 1, 2]) if nb < 3 else 1)] for _ in range(nb - 1)]
        brs.append([dict(q) for q in r.sample(qs, min(len(qs), 2 if nb < 3 else 1))] if r.random() < .7 else [change()])
        g.add("Par", branches=brs, seed=r.randrange(1 << 30), strategy=r.choice(strategies), rets=r.random() < .4)
        g.steps += [dict(q) for q in qs[:6]]
        g.add("EntitySearch", expr="*", q={"f": "all"}, tok="")
        g.add("GroupSearch", expr="*", q={"f": "all"}, tok="")
        g.probe()
    g.restart()
    g.probe()
    return g
