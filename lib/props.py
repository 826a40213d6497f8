"""What each check runs."""
import random
from concurrent.futures import ThreadPoolExecutor
import clients
import gen
import stores
import tour
import tokens
from gen import SOUP

MEMS = ("memory",)
BACK = ("memory", "filesystem", "bitcask")


def W(base=0.15, **kw):
    """The general mix, with the named requests emphasised."""
    w = {k: v * base for k, v in SOUP.items()}
    for k, v in kw.items():
        w[k] = v
    return w


AUTH = dict(AuthEntity=6, AuthGetToken=3, AuthChangeSecret=5, EntityLock=3, EntityUnlock=3, EntityDestroy=2, EntityCreate=3)


def core(cfgs, shuffles=(), soups=(), deep=(), limit=(5000, 40000), backends=MEMS, gens=(), probe=6):
    """Models with replay of their transitions, then random sequences."""
    def plan(c):
        outs = c.models(list(cfgs) + list(shuffles) + (list(deep) if c.thorough else []))
        for m in cfgs:
            c.replay(outs[m], m, limit=c.x(*limit) // len(cfgs), backends=backends, probe=probe)
        for m in shuffles:
            c.shuffled(outs[m], m, limit=c.x(*limit) // (2 * len(shuffles)), backends=backends, probe=probe)
        for i, kw in enumerate(soups):
            kw = dict(kw)
            n = kw.pop("num", 60)
            c.soups(c.x(n, n * 12), name=f"soup{i}", **kw)
        for i, (n, f, kw) in enumerate(gens):
            c.gens(c.x(n, n * 12), f, f"{f.__name__}{i}", **kw)
        c.run()
    return plan


PLANS = {
    "C01": core(["Accounts", "Boot"], [], [dict(weights=W(**AUTH), restarts=.06, boots=.3, holders=.4),
                                           dict(weights=W(**AUTH), backends=BACK, crypto=("bcrypt",), num=20, n=30, restarts=.05)]),
    "C02": core(["Accounts", "SecretAuth", "Boot"], [], [dict(weights=W(**AUTH), restarts=.06, boots=.3, holders=.5),
                                                 dict(weights=W(base=1, EntityLock=9, EntityUnlock=5, AuthEntity=8), restarts=.04)]),
    "C03": core(["SecretAuth", "Accounts"], [], [dict(weights=W(**dict(AUTH, AuthChangeSecret=14)), holders=.8, tokroot=.4, restarts=.03),
                                                 dict(weights=W(**dict(AUTH, AuthChangeSecret=14)), holders=.8, tokroot=.4, crypto=("bcrypt",), num=20, n=30)]),
    "C05": core(["AuthorityOwn"], ["Authority", "AuthorityRO"], [dict(holders=.9, tokroot=.35, managed=.3)], deep=["AuthorityDeep"]),
    "C06": core(["Delegation", "DelegTwo", "DelegAll"], ["AuthorityOwn"], [
        dict(weights=W(GroupUpdate=8, GroupUM=4, GroupUpdateRules=6, GroupAddMember=8, GroupDelMember=5, GroupDestroy=2, AuthGetToken=4),
             holders=.4, managed=.8, tokroot=.35)]),
    "C07": core(["MetaE", "MetaG"], [], [dict(weights=W(base=.5, EntityUpdate=14, GroupUpdate=14), restarts=.03)]),
    "C09": core(["Tokens", "TokensUse"], [], [dict(weights=W(base=.4, AuthGetToken=10, SystemCapabilities=10, GroupUpdateRules=6, GroupAddMember=6),
                                                    holders=.8, tokroot=.6, restarts=.05)]),
    "C10": core([], ["ReadOnly", "AuthorityRO"], [dict(ro=True, holders=.5, managed=.4, tokroot=.6, restarts=.05),
                                                  dict(ro=True, holders=.5, tokroot=.6, backends=("filesystem", "bitcask"), num=16)]),
    "C11": core(["Rules", "RulesDestroy"], [], [dict(weights=W(GroupUpdateRules=12, GroupAddMember=8, GroupDelMember=4, GroupDestroy=2, GroupCreate=4,
                                                               EntityDestroy=1, EntityCreate=2, EntityGroups=3, GroupMembers=3), n_gs=6, probe=4)], deep=["Rules4"],
                limit=(8000, 60000)),
    "C12": core(["Rules", "RulesDestroy"], [], [dict(weights=W(base=.05, GroupUpdateRules=20, GroupCreate=4, GroupDestroy=2), n_gs=6, probe=8)], deep=["Rules4"],
                limit=(8000, 60000)),
    "C13": core(["Rules", "RulesDestroy"], [], [dict(weights=W(base=.05, GroupUpdateRules=20, GroupCreate=4, GroupDestroy=2), n_gs=6, probe=8)],
                limit=(8000, 60000)),
    "C15": core(["Members", "RulesRestart"], [], [dict(weights=W(base=.2, GroupAddMember=12, GroupDelMember=8), n_gs=5, probe=5, tokroot=.9)]),
    "C16": core(["Entities", "Accounts"], [], [dict(weights=W(base=.6, EntityCreate=12, EntityDestroy=8, EntityInfo=4), restarts=.03, backends=BACK)]),
    "C17": core(["Groups", "RulesDestroy"], [], [dict(weights=W(base=.6, GroupCreate=14, GroupDestroy=8, GroupInfo=4), restarts=.03, managed=.5, backends=BACK)]),
    "C18": core(["NumbersE", "NumbersG"], [], [dict(weights=W(base=.2, EntityCreate=12, EntityDestroy=6, GroupCreate=12, GroupDestroy=6), n_ids=7, n_gs=7, restarts=.05, tokroot=.97)],
                gens=[(40, gen.parallel, dict(focus="numbers"))]),
    "C19": core(["KVE", "KVG"], [], [dict(weights=W(EntityKVGet=5, EntityKVAdd=9, EntityKVDel=5, EntityKVReplace=7, GroupKVGet=5, GroupKVAdd=9,
                                                    GroupKVDel=5, GroupKVReplace=7), tokroot=.95, restarts=.03)]),
    "C20": core(["UME", "UMG"], [], [dict(weights=W(EntityUM=20, GroupUM=20), tokroot=.95, restarts=.03)]),
    "C21": core(["Keys"], [], [dict(weights=W(EntityKeys=20), tokroot=.9, restarts=.03)]),
    "C22": core(["Caps", "TokensUse"], [], [dict(weights=W(base=.4, SystemCapabilities=14), holders=.6, tokroot=.6)]),
    "C28": core(["BootRich", "Boot"], [], [dict(holders=.6, restarts=.25, boots=.6, n=30)]),
    "C36": core(["Entities", "KVE", "UME"], ["All"], [dict(tokroot=.9), dict(tokroot=.9, backends=("filesystem", "bitcask"), num=30)], deep=["AllDeep"]),
}


ALL3 = dict(backends=BACK)
BOTH = dict(backends=BACK, crypto=("nocrypto", "bcrypt"))


def malformed_all(c):
    for k in range(8):
        g = gen.malformed_all(c.rng, k, 8)
        c.scen([{"sid": f"malformed.{k}", "backend": BACK[k % 3], "crypto": "nocrypto", "steps": g.steps}])


def c35(c):
    malformed_all(c)
    core(["RulesDestroy"], ["All"], [dict(tokroot=.8), dict(weights=W(GroupUpdateRules=20, GroupCreate=4, GroupDestroy=4, GroupAddMember=4), n_gs=6, probe=3)],
         gens=[(60, gen.weird, ALL3), (20, gen.faulty, ALL3), (30, gen.parallel, {}), (40, gen.parallel, dict(focus="gone", strategies=("hold",), rets=1, blocks=12))])(c)


PLANS.update({
    "C04": core(["Entities"], ["All"], [dict(weights=W(base=.5, EntityInfo=8, GroupInfo=5, EntitySearch=6, GroupSearch=3, AuthChangeSecret=4, EntityCreate=6,
                                                      GroupCreate=4, SystemCapabilities=3, GroupMembers=3), cross=.15, crypto=("bcrypt", "nocrypto"), backends=BACK)],
                gens=[(30, gen.searchy, dict(BOTH, secrets=.4)), (20, gen.weird, BOTH)]),
    "C14": core(["RulesRestart", "RulesDestroy", "Members"], [], [], gens=[(60, gen.restarty, ALL3), (15, gen.searchy, dict(ALL3, restarts=.2))], probe=3),
    "C23": core(["All"], [], [dict(tokroot=.6, holders=.4)], gens=[(110, gen.faulty, BOTH)]),
    "C24": core(["RulesRestart"], [], [dict(restarts=.2, backends=BACK, num=40)], gens=[(110, gen.faulty, dict(BOTH, op="Crash"))]),
    "C27": core(["MetaE", "MetaG"], [], [], gens=[(60, gen.searchy, ALL3)], limit=(1500, 4000)),
    "C35": c35,
})



def store_conc(r, i):
    return stores.Names(r).call


def reals(num, f=gen.soup, name="real", **kw):
    """Sequences of a generator against netauthd itself."""
    def plan(c):
        c.bin("netauthd")
        for i in range(c.x(num, num * 10)):
            g = gen.real(f(c.rng, **kw), c.rng)
            c.scen([{"sid": f"{name}.{i}", "backend": "netauthd", "steps": g.steps}])
    return plan


def store_models(c):
    outs = c.models(["Store", "StoreFaults"], module="MCStore.tla")
    c.modreplay(outs["Store"], "Store", "store", store_conc, limit=c.x(3500, 20000), backends=BACK)


def store_soups(c, n, name="stsoup"):
    for i in range(c.x(n, n * 10)):
        b = BACK[i % 3]
        c.scen([{"sid": f"{name}.{i}", "mod": "store", "backend": b, "steps": stores.soup(c.rng, backend=b)}])


def store_kills(c, n, mode, name):
    for i in range(c.x(n, n * 10)):
        b = BACK[1 + i % 2]
        c.scen([{"sid": f"{name}.{i}", "mod": "store", "backend": b, "steps": stores.kill(c.rng, mode, b)}])


def c25(c):
    store_models(c)
    store_soups(c, 90)
    store_kills(c, 24, "error", "sterr")
    store_kills(c, 8, "run", "strun")
    c.run()
    scs = []
    for i in range(c.x(24, 200)):
        g = gen.soup(c.rng, tokroot=.8, restarts=.05) if i % 2 else gen.searchy(c.rng)
        scs.append({"sid": f"agree.{i}", "crypto": "nocrypto", "steps": g.steps})
    c.agree(scs, BACK)


PLANS["C25"] = c25


def before(f, g):
    """First queues more work, then the plan proper."""
    def plan(c):
        f(c)
        return g(c)
    return plan


PLANS["C28"] = before(reals(40, holders=.6, restarts=.25, boots=.6, n=24), PLANS["C28"])
PLANS["C10"] = before(reals(24, ro=True, holders=.5, managed=.4, tokroot=.6, restarts=.1), PLANS["C10"])
PLANS["C14"] = before(reals(20, gen.restarty), PLANS["C14"])


def c26(c):
    with ThreadPoolExecutor(1) as ex:
        b = ex.submit(lambda: c.racedrv)
        core(["RulesRestart"], [], [], gens=[(140, gen.parallel, ALL3), (30, gen.parallel, dict(focus="numbers")), (40, gen.parallel, dict(focus="rules")),
                                             (30, gen.parallel, dict(focus="gone")), (20, gen.parallel, dict(focus="gone", strategies=("hold",), rets=1)),
                                             (50, gen.parsearch, ALL3)], limit=(800, 4000))(c)
        b.result()
    c.gens(c.x(32, 400), gen.parallel, "raced", backends=BACK, strategies=("free",))
    c.gens(c.x(16, 200), gen.parsearch, "racedsearch", backends=BACK, strategies=("free",))
    c.run(race=True)


PLANS["C26"] = before(reals(24, gen.parallel), c26)
PLANS["C35"] = before(reals(24, gen.weird), PLANS["C35"])
PLANS["C01"] = before(reals(16, weights=W(**AUTH), restarts=.06, boots=.3, holders=.4), PLANS["C01"])
PLANS["C24"] = before(reals(60, gen.faulty, op="Crash"), PLANS["C24"])
PLANS["C24"] = before(lambda c: (store_kills(c, 60, "kill", "stkill"), store_kills(c, 12, "run", "strun")), PLANS["C24"])
PLANS["C23"] = before(lambda c: store_kills(c, 24, "error", "sterr"), PLANS["C23"])


def c08(c):
    outs = c.models(["Token", "TokenTime"] + (["TokenDeep"] if c.thorough else []), module="MCToken.tla")
    c.modreplay(outs["Token"], "Token", "token", tokens.conc, limit=c.x(4000, 30000))
    c.modreplay(outs["TokenTime"], "TokenTime", "token", tokens.conc, limit=c.x(80, 400), maxlen=14)
    for i in range(c.x(90, 900)):
        c.scen([{"sid": f"toksoup.{i}", "mod": "token", "steps": tokens.soup(c.rng, waits=1 if i % 8 == 0 else 0)}])
    c.run()


PLANS["C08"] = c08


def health_conc(r, i):
    words = {"": "", "x": r.choice(["x", "y z", "é", "all good", "a\tb", "-"])}
    names = dict(zip("ab", r.sample(["one", "two", "One", "plugin-x", "JWT", "", "db"], 2)))

    def f(c):
        c = dict(c)
        if c["op"] == "Register":
            c["name"] = names[c["name"]]
        if c["op"] == "Set":
            c["v"] = [c["v"][0], words[c["v"][1]], words[c["v"][2]]]
        return c
    return f


def health_soup(r, n=40):
    names = ["n%d" % i for i in range(r.choice([1, 3, 8, 20]))]
    steps = []
    for _ in range(n):
        x = r.random()
        if x < .25:
            steps.append({"op": "Register", "name": r.choice(names), "chk": "c%d" % r.randrange(len(names) + 3)})
        elif x < .5:
            steps.append({"op": "Set", "chk": "c%d" % r.randrange(len(names) + 3), "v": [r.random() < .7, r.choice(["", "s1", "s2", "db"]), r.choice(["", "ok", "broken: x"])]})
        elif x < .52 and all(s["op"] != "Jwt" for s in steps):
            steps.append({"op": "Jwt"})
        elif x < .6 and any(s["op"] == "Jwt" for s in steps):
            steps.append({"op": "Mode", "file": r.choice(["token.pem", "token.key"]), "mode": r.choice([-1, 0o644, 0o644, 0o400, 0o400, 0o600, 0o666, 0])})
        else:
            steps.append({"op": r.choice(["Status", "Status", "Local", "Ping"])})
    return steps


def c31(c):
    outs = c.models(["Health", "HealthJwt"], module="MCHealth.tla")
    c.modreplay(outs["Health"], "Health", "health", health_conc, limit=c.x(6000, 60000), maxlen=80)
    c.modreplay(outs["HealthJwt"], "HealthJwt", "health", health_conc, limit=c.x(3000, 20000), maxlen=80)
    for i in range(c.x(60, 800)):
        c.scen([{"sid": f"hsoup.{i}", "mod": "health", "steps": health_soup(c.rng)}])
    c.bin("netauthd")
    for i in range(c.x(12, 150)):
        c.scen([{"sid": f"endsoup.{i}", "mod": "plugin", "backend": "netauthd", "plugins": ["p", "q"], "steps": plug_ends(c, ["p", "q"])}])
    c.scen(broken_plugins(c))
    c.run()


PLANS["C31"] = c31


OWNERS = ["alice", "bob", "Alice", "x/../alice", "./alice", "a/b", "a%2Fb", "a_b", "a:b", "../alice", "../../x", "..", ".", "", "alice.nt", "alice ", "al ice", "*", "alice.tmp",
          "\u00e9", "e\u0301", "a\\b", "~", "-rf", "a\nb", "nt", ".nt", "%", "%2e%2e", "a+b", "a b", "a#b", "a?b", "NetAuth", "u" * 120]


def cache_tok(r):
    return "%06x:%d" % (r.getrandbits(24), r.choice([0, 1, 20, 800, 70000]))


def cache_conc(r, i):
    o = dict(zip("abc", r.sample(OWNERS, 3)))
    t = {"x": cache_tok(r), "y": cache_tok(r)}

    def f(c):
        c = dict(c)
        if "o" in c:
            c["o"] = o[c["o"]]
        if "t" in c:
            c["t"] = t[c["t"]]
        return c
    return f


def cache_soup(r, n=50):
    own = r.sample(OWNERS, r.choice([3, 8, 20]))

    def one(o, insts=(1, 2)):
        k = r.choice(["Put", "Put", "Get", "Get", "Get", "Del"])
        c = {"op": k, "inst": r.choice(insts), "o": r.choice(o)}
        if k == "Put":
            c["t"] = cache_tok(r)
        return c
    steps = []
    for _ in range(n):
        x = r.random()
        if x < .05:
            steps.append({"op": "New", "inst": r.choice([1, 2])})
        elif x < .1:
            steps.append({"op": "Loosen"})
        elif x < .15:
            q = own[:]
            r.shuffle(q)
            steps.append({"op": "Par", "branches": [[one(q[j::3], (1,)) for _ in range(r.choice([10, 40]))] for j in range(3)]})
        else:
            steps.append(one(own))
    return steps


def c33(c):
    outs = c.models(["CacheMem", "CacheFs"], module="MCCache.tla")
    c.modreplay(outs["CacheMem"], "CacheMem", "cache", cache_conc, limit=c.x(3000, 30000), backends=("memory",))
    c.modreplay(outs["CacheFs"], "CacheFs", "cache", cache_conc, limit=c.x(3000, 30000), backends=("fs",))
    for i in range(c.x(80, 800)):
        c.scen([{"sid": f"csoup.{i}", "mod": "cache", "backend": ("fs", "memory")[i % 2], "steps": cache_soup(c.rng)}])
    c.run()


PLANS["C33"] = c33


def copy_conc(r, i):
    names = dict(a=r.choice(["a", "root", "x y", "\u00e9", "a.b", "a*", "UPPER", ".dot"]))
    vals = {"v": stores.val(r), "w": stores.val(r)}

    def f(c):
        c = dict(c)
        if "k" in c:
            c["k"] = [c["k"][0], names[c["k"][1]]]
        if "v" in c:
            c["v"] = vals[c["v"]]
        return c
    return f


def copy_soup(r, faults, n=14):
    B = ["filesystem", "bitcask"]
    names = r.sample(["a", "b", "c", "root", "x y", "\u00e9", "e", "a.b", "a*", "A", ".dot", "long" * 12, "lock", "index"], 6)
    steps = []

    def put():
        k = [r.choice(["entities", "groups", "other"]), r.choice(names)]
        if r.random() < .2:
            return {"op": "Del", "b": r.choice(B), "k": k}
        return {"op": "Put", "b": r.choice(B), "k": k, "v": stores.val(r)}
    for _ in range(r.choice([2, 6, 12])):
        steps.append(put())
    for _ in range(n):
        if r.random() < .5:
            steps.append(put())
            continue
        s, d = r.sample(B, 2)
        c = {"op": "Copy", "src": s, "dst": d, "trunc": r.random() < .5, "dry": r.random() < .2}
        x = r.random()
        if x < .08:
            c["dst"] = c["src"]
        elif faults:
            k, e = r.choice([("write", "ENOSPC"), ("openat", "EIO"), ("openat", "EMFILE"), ("openat", "EACCES"), ("renameat,renameat2", "EIO"), ("unlinkat", "EPERM"), ("fsync", "EIO"),
                             ("pread64", "EIO"), ("read", "EIO"), ("getdents64", "EIO"), ("openat,write,renameat,unlinkat,getdents64,pread64", "KILL")])
            c["calls"] = k
            # the bitcask library opens an empty view if it can not list its directory
            c["kv"] = k in ("openat", "getdents64")
            c["kill"] = e == "KILL"
            c["inject"] = ("signal=KILL" if e == "KILL" else "error=" + e) + ":when=%d" % r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 25, 30, 40, 60])
        steps.append(c)
    return steps


def copy_listing(r):
    """The listing of the filesystem store fails at every point."""
    steps = [{"op": "Put", "b": b, "k": [d, n], "v": stores.val(r, 0)} for b in ("filesystem", "bitcask") for d in ("entities", "groups") for n in r.sample("abcd", 2)]
    for i in range(1, 9):
        s, d = r.choice([("filesystem", "bitcask"), ("filesystem", "bitcask"), ("bitcask", "filesystem")])
        steps.append({"op": "Copy", "src": s, "dst": d, "trunc": r.random() < .7, "dry": False, "kv": True, "kill": False, "calls": r.choice(["getdents64", "openat"]), "inject": "error=EIO:when=%d" % i})
        steps += [{"op": "Put", "b": b, "k": ["groups", r.choice("abcd")], "v": stores.val(r, 0)} for b in ("filesystem", "bitcask")]
    return steps


def c34(c):
    c.bin("nsutil")
    outs = c.models(["Copy"], module="MCCopy.tla")
    c.modreplay(outs["Copy"], "Copy", "copy", copy_conc, limit=c.x(2600, 10000))
    for i in range(c.x(64, 600)):
        c.scen([{"sid": f"cpsoup.{i}", "mod": "copy", "steps": copy_soup(c.rng, i % 2)}])
    for i in range(c.x(12, 80)):
        c.scen([{"sid": f"cplist.{i}", "mod": "copy", "steps": copy_listing(c.rng)}])
    c.run()


PLANS["C34"] = c34

def c32(c):
    outs = c.models(["ClientOne", "ClientSplit"], module="MCClient.tla")
    for n, bs in (("ClientOne", ("same", "unset")), ("ClientSplit", ("split",))):
        for k in range(c.x(2, 20)):
            c.modreplay(outs[n], f"{n}.{k}", "client", clients.concrete, limit=c.x(1200, 2500), backends=bs)
    for i in range(c.x(60, 1500)):
        c.scen([{"sid": f"clsoup.{i}", "mod": "client", "backend": ("split", "split", "same", "unset")[i % 4], "steps": clients.soup(c.rng, reads=c.rng.choice([.2, .5, .9]))}])
    # against the real server
    for i in range(c.x(70, 700)):
        g = gen.soup(c.rng, n=60 if c.thorough else 40, weights=W(1, GroupInfo=6, EntityInfo=3), weird=c.rng.random() < .5, managed=.6, tokroot=.8)
        c.scen([{"sid": f"lib.{i}", "backend": "memory", "crypto": "nocrypto", "steps": clients.libify(c.rng, g.steps)}])
    c.run()


PLANS["C32"] = c32

def c37(c):
    c.bin("netauth")
    outs = c.models(["CliOne", "CliSplit"], module="MCCli.tla")
    for n, bs in (("CliOne", ("same",)), ("CliSplit", ("split",))):
        c.modreplay(outs[n], n, "cli", clients.commands, limit=c.x(1300, 12000), maxlen=40, backends=bs)
    c.run()


PLANS["C37"] = c37


PACTS = ["EntityCreate", "EntityUpdate", "EntityLock", "EntityUnlock", "EntityDestroy", "PreSecretChange", "PostSecretChange", "PreAuthCheck", "PostAuthCheck",
         "GroupCreate", "GroupUpdate", "GroupDestroy"]


def plug_walk(c, w, sid, plugins):
    """A walk of MCPlugin, after the requests it starts from."""
    rn = tour.Renamer(c.rng, plain=c.rng.random() < .3)
    pre = [{"op": "Restart", "ro": False, "bid": "root", "bsec": rn.s["rootpw"]},
           {"op": "AuthGetToken", "id": "root", "sec": rn.s["rootpw"], "as": "T0"}]
    pre += [rn.call(x) for x in ({"op": "EntityCreate", "id": "e1", "num": 2, "sec": "s1", "tok": "T0"},
                                 {"op": "GroupCreate", "g": "g1", "num": 1, "dn": "d", "mb": "", "tok": "T0"},
                                 {"op": "AuthGetToken", "id": "e1", "sec": "s1", "as": "t_e1"})]
    return {"sid": sid, "mod": "plugin", "backend": "netauthd", "plugins": plugins, "steps": pre + [rn.call(x) for x in w]}


def plug_soup(c, n=40, ps=("p", "q"), **kw):
    """Requests of all kinds, while plugins object, amend and end."""
    g = gen.soup(c.rng, n=n, weights=W(base=.4, AuthEntity=4, AuthChangeSecret=4, EntityCreate=5, EntityDestroy=4, EntityUpdate=4, EntityUM=6, EntityLock=3, EntityUnlock=3,
                                       GroupCreate=4, GroupDestroy=3, GroupUpdate=4, GroupUM=5), **kw)
    r = c.rng
    out, told = [], None
    for k, s in enumerate(g.steps):
        if s["op"] == "Probe":
            continue
        if s["op"] == "AuthGetToken" and told and told[1].endswith("AuthCheck"):
            out.append({"op": "Plug", "p": told[0], "a": told[1], "do": "pass"})
            told = None
        if k > 6 and r.random() < .35:
            if told:
                out.append({"op": "Plug", "p": told[0], "a": told[1], "do": "pass"})
                told = None
            elif ps:
                told = (r.choice(ps), r.choice(PACTS))
                out.append({"op": "Plug", "p": told[0], "a": told[1], "do": r.choice(["veto", "veto", "amend", "amend", "amend", "lock", "die"])})
        out.append(s)
        if r.random() < .06:
            out.append({"op": "SystemStatus"})
        if r.random() < .04:
            out.append({"op": "Restart", "ro": False})
    return out


def c29(c):
    c.bin("netauthd")
    outs = c.models(["PlugAuth", "PlugEnt", "PlugGrp"], module="MCPlugin.tla")
    for m in outs:
        pre, init, edges = tour.parse(outs[m])
        walks, left = tour.tours(init, edges, c.rng, 60, c.x(4500, 40000))
        c.notes.append(f"{m}: {len(edges)} transitions, {len(edges) - left} replayed in {len(walks)} walks")
        c.scen([plug_walk(c, w, f"{m}.{i}", ["p", "q"]) for i, w in enumerate(walks)])
    for i in range(c.x(90, 900)):
        ps = c.rng.choice([["p"], ["p", "q"], ["p", "q"], ["p", "q", "r"]])
        c.scen([{"sid": f"plugsoup.{i}", "mod": "plugin", "backend": "netauthd", "plugins": ps, "steps": plug_soup(c, ps=ps, tokroot=.8, managed=.3)}])
    c.scen(broken_plugins(c))
    c.run()


PLANS["C29"] = c29


def broken_plugins(c):
    """Plugins that do not start."""
    return [{"sid": f"broken.{i}.{len(ps)}", "mod": "plugin", "backend": "netauthd", "plugins": ps,
             "steps": [{"op": "Restart", "ro": False, "bid": "root", "bsec": "rootpw"}, {"op": "SystemStatus"}, {"op": "SystemPing"},
                       {"op": "AuthGetToken", "id": "root", "sec": "rootpw", "as": "T0"}] + plug_soup(c, n=8, ps=ps[:len(ps) - 1])[2:] + [{"op": "SystemStatus"}]}
            for i, b in enumerate(["!exit", "!noexec", "!garbage"]) for ps in ([b], ["p", b])]


def plug_ends(c, ps):
    """Plugins end, and the status is asked all the while."""
    steps = [{"op": "Restart", "ro": False, "bid": "root", "bsec": "rootpw"}, {"op": "AuthGetToken", "id": "root", "sec": "rootpw", "as": "T0"}]
    for k in range(3):
        steps += [{"op": "SystemStatus"}, {"op": "SystemPing"}]
        p = c.rng.choice(ps)
        a = c.rng.choice(["EntityCreate", "GroupCreate", "PreAuthCheck"])
        steps += [{"op": "Plug", "p": p, "a": a, "do": c.rng.choice(["die", "die", "veto"])}, {"op": "SystemStatus"}]
        steps += [{"op": "EntityCreate", "id": f"e{k}", "num": -1, "sec": "s", "tok": "T0"}, {"op": "SystemStatus"},
                  {"op": "GroupCreate", "g": f"g{k}", "num": -1, "dn": "", "mb": "", "tok": "T0"}, {"op": "SystemStatus"},
                  {"op": "AuthEntity", "id": "root", "sec": "rootpw"}, {"op": "SystemStatus"}, {"op": "SystemPing"}]
        if c.rng.random() < .4:
            steps += [{"op": "Restart", "ro": False}, {"op": "SystemStatus"}, {"op": "AuthGetToken", "id": "root", "sec": "rootpw", "as": "T0"}]
    return steps


F2L_MS = 1200


def f2l_conf(r, a):
    """How the plugin is configured; what is not said has a default."""
    return {"allowed_fails": a, "interval": "%dms" % F2L_MS, "ms": F2L_MS}


def f2l_walk(c, w, sid, allowed):
    rn = tour.Renamer(c.rng, plain=c.rng.random() < .3)
    m = rn.base
    pre = [{"op": "Restart", "ro": False, "bid": "root", "bsec": rn.s["rootpw"]},
           {"op": "AuthGetToken", "id": "root", "sec": rn.s["rootpw"], "as": "T0"}]
    pre += [rn.call({"op": "EntityCreate", "id": x, "num": -1, "sec": "s1", "tok": "T0"}) for x in ("e1", "e2")]
    steps = []
    for x in w:
        steps.append({"op": "Wait", "ms": F2L_MS // allowed - 30} if x["op"] == "Tick" else rn.call(x))
    return {"sid": sid, "mod": "f2l", "backend": "netauthd", "plugins": ["fail2lock"], "f2l": f2l_conf(c.rng, allowed), "steps": pre + steps}


def f2l_soup(r, n=60, waits=True, allowed=3):
    """Right and wrong secrets in bursts, with pauses."""
    g = gen.G(r, n_ids=4, n_gs=1)
    g.start()
    ids = g.ids[:3]
    for x in ids:
        g.mkent(x)
    for x in ids[:2]:
        g.gettok(x)
    waited = 0
    while len(g.steps) < n:
        x = r.choice(ids)
        k = r.random()
        if k < .75:
            for _ in range(r.choice([1, 1, allowed - 1, allowed, allowed, allowed + 1])):
                sec = g.last[x] if r.random() < .35 else r.choice(g.secs)
                o = r.random()
                if o < .6:
                    g.add("AuthEntity", id=x, sec=sec)
                elif o < .8:
                    g.add("AuthGetToken", id=x, sec=sec, **{"as": "t_" + x})
                else:
                    g.add("AuthChangeSecret", id=x, old=sec, sec=sec, tok=r.choice(["t_" + x, "t_" + x, "T0", "t_" + ids[0]]))
            g.add("AuthEntity", id=x, sec=g.last[x])
        elif k < .82 and waits and waited < 6:
            waited += 1
            g.add("Wait", ms=r.choice([100, 300, 600, F2L_MS + 20]))
        elif k < .88:
            g.add("EntityUM", id=x, act="UPSERT", key="fail2lock", val=r.choice(["RESET", "RESET", "x", ""]), tok="T0")
        elif k < .9:
            g.add("EntityUM", id=x, act="CLEARFUZZY", key="fail2lock", val="", tok="T0")
        elif k < .93:
            g.add(r.choice(["EntityLock", "EntityUnlock"]), id=x, tok="T0")
        elif k < .95:
            g.add("Restart", ro=False)
        elif k < .97:
            g.add("EntityDestroy", id=x, tok="T0")
            g.mkent(x)
        else:
            g.step(r.choice(["EntityInfo", "EntityUM", "EntityGroups", "EntityUpdate"]), {"tok": "T0"})
    return [s for s in g.steps if s["op"] != "Probe"]


def f2l_par(r):
    """Attempts side by side."""
    g = gen.G(r, n_ids=6, n_gs=1)
    g.start()
    ids = g.ids
    for x in ids:
        g.mkent(x)
    for _ in range(4):
        br = [[{"op": "AuthEntity", "id": x, "sec": g.last[x] if r.random() < .15 else g.last[x] + "!"} for x in r.choices(ids, k=8)] for _ in range(8)]
        g.add("Par", strategy="free", branches=br)
        for x in r.sample(ids, 3):
            g.add("AuthEntity", id=x, sec=g.last[x])
        if r.random() < .3:
            g.add("Wait", ms=F2L_MS + 20)
    return [s for s in g.steps if s["op"] != "Probe"]


def c30(c):
    c.bin("netauthd", "fail2lock")
    outs = c.models(["F2LA", "F2LB"], module="MCFail2lock.tla")
    for m, a in (("F2LA", 2), ("F2LB", 3)):
        pre, init, edges = tour.parse(outs[m])
        walks, left = tour.tours(init, edges, c.rng, 60, c.x(1500, 40000))
        c.notes.append(f"{m}: {len(edges)} transitions, {len(edges) - left} replayed in {len(walks)} walks")
        c.scen([f2l_walk(c, w, f"{m}.{i}", a) for i, w in enumerate(walks)])
    for i in range(c.x(48, 500)):
        a = c.rng.choice([1, 2, 3, 5])
        c.scen([{"sid": f"f2lsoup.{i}", "mod": "f2l", "backend": "netauthd", "plugins": ["fail2lock"], "f2l": f2l_conf(c.rng, a), "steps": f2l_soup(c.rng, allowed=a)}])
    for i in range(c.x(10, 100)):
        a = c.rng.choice([2, 3, 20])
        c.scen([{"sid": f"f2lpar.{i}", "mod": "f2l", "backend": "netauthd", "plugins": ["fail2lock"], "f2l": f2l_conf(c.rng, a), "steps": f2l_par(c.rng)}])
    # parts of the configuration left out
    for i, f in enumerate([{}, {"interval": "%dms" % F2L_MS, "ms": F2L_MS}, {"allowed_fails": 2}, None]):
        s = {"sid": f"f2lconf.{i}", "mod": "f2l", "backend": "netauthd", "plugins": ["fail2lock"], "f2l": f,
             "steps": f2l_soup(c.rng, n=50, waits=True, allowed=(f or {}).get("allowed_fails", 3))}
        c.scen([s])
    c.run()


PLANS["C30"] = c30


# ---- what is known not to hold; see known-findings.json


def long_secret(c):
    """Secrets that bcrypt by itself cannot tell from others: it looks at no
    more than 72 bytes, and repeats shorter ones with null bytes between."""
    x = "x" * 72
    sets = [[x + "A", x[:-1], x + "B", x, x + "AB", x[:-1] + "\0"], [x, x[:-1], x + "A", x + "\0", x + x], [x[:-1], x, x[:-1] + "y", x[:-1] + "\0"],
            ["a", "a\0a", "a\0", "a\0a\0a", "\0a"], ["a\0a", "a", "a\0", "a\0a\0a", "a\0b"], ["a\0", "a", "a\0a", "a\0\0"], ["\0", "", "\0\0"],
            ["", "\0", "\0\0"], ["ab\0" + x, "ab\0" + x[:-1], "ab", "ab\0ab\0", "ab\0" + x + "y"], ["\u00e9" * 36, "\u00e9" * 37, "\u00e9" * 35 + "e"]]
    scens = []
    for i, ss in enumerate(sets):
        steps = [{"op": "Restart", "ro": False, "bid": "root", "bsec": "rootpw"}, {"op": "AuthGetToken", "id": "root", "sec": "rootpw", "as": "T0"},
                 {"op": "EntityCreate", "id": "e", "num": 5, "sec": ss[0], "tok": "T0"}]
        steps += [{"op": "AuthEntity", "id": "e", "sec": y} for y in ss]
        for y in ss[1:3]:
            steps += [{"op": "AuthChangeSecret", "id": "e", "sec": y, "osec": "", "tok": "T0"}]
            steps += [{"op": "AuthEntity", "id": "e", "sec": z} for z in ss]
        scens.append({"sid": "bcrypt-long-secret#%d" % i, "backend": "memory", "crypto": "bcrypt", "steps": steps})
    c.scen(scens)


def fault_token(c):
    """Reading the capabilities fails after the authentication."""
    steps = [{"op": "Restart", "ro": False, "bid": "root", "bsec": "rootpw"}, {"op": "AuthGetToken", "id": "root", "sec": "rootpw", "as": "T0"},
             {"op": "EntityCreate", "id": "e", "num": 5, "sec": "s", "tok": "T0"}, {"op": "GroupCreate", "g": "g", "num": 5, "dn": "", "mb": "", "tok": "T0"},
             {"op": "GroupAddMember", "id": "e", "gs": ["g"], "tok": "T0"},
             {"op": "SystemCapabilities", "direct": True, "tgt": "e", "act": "ADD", "cap": "LOCK_ENTITY", "tok": "T0"},
             {"op": "SystemCapabilities", "direct": False, "tgt": "g", "act": "ADD", "cap": "UNLOCK_ENTITY", "tok": "T0"}]
    steps += [{"op": "Fault", "late": True, "kind": "Get", "n": n, "call": {"op": "AuthGetToken", "id": "e", "sec": "s", "as": "t%d" % n}} for n in range(1, 7)]
    c.scen([{"sid": "fault-token", "backend": "memory", "crypto": "nocrypto", "steps": steps}])


def shaky(num, **kw):
    """Queries while storage fails."""
    def plan(c):
        for i in range(c.x(num, num * 10)):
            c.scen([{"sid": f"shaky.{i}", "backend": BACK[i % 3], "crypto": "nocrypto", "steps": gen.shaky(c.rng, **kw).steps}])
    return plan


for _p, _kw in {"C01": dict(ops=["AuthEntity", "AuthEntity", "AuthGetToken"]), "C02": dict(ops=["AuthEntity", "AuthGetToken"]),
                "C09": dict(ops=["AuthGetToken"]), "C11": dict(ops=["EntityGroups", "GroupMembers"]),
                "C16": dict(ops=["EntityInfo", "EntityGroups"]), "C17": dict(ops=["GroupInfo"]), "C19": dict(ops=["EntityKVGet", "GroupKVGet"]),
                "C20": dict(ops=["UM"]), "C21": dict(ops=["keys"]), "C23": {}, "C27": dict(ops=["search"]), "C35": {}, "C10": {}}.items():
    PLANS[_p] = before(shaky(10, **_kw), PLANS[_p])
PLANS["C01"] = before(long_secret, PLANS["C01"])
PLANS["C09"] = before(fault_token, PLANS["C09"])


def crowds(**kinds):
    """Records, rules or values in numbers beyond the small models."""
    def plan(c):
        for k, n in kinds.items():
            c.gens(max(3, c.x(n, n * 12)), gen.crowd, "crowd-" + k, backends=BACK, kind=k)
    return plan


for _p, _k in {"C06": dict(wide=4), "C07": dict(long=3), "C09": dict(chain=3, wide=3), "C11": dict(chain=6, wide=4), "C12": dict(chain=8),
               "C13": dict(chain=4, wide=3), "C14": dict(chain=3, wide=2, records=2, lists=1, long=1), "C15": dict(wide=5, records=2),
               "C16": dict(records=3, long=2), "C17": dict(records=3, long=2), "C18": dict(records=5), "C19": dict(lists=5, long=2),
               "C20": dict(lists=5, long=2), "C21": dict(lists=5, long=2), "C22": dict(wide=4), "C24": dict(records=1, long=1, chain=1),
               "C25": dict(records=2, long=2), "C27": dict(records=4), "C35": dict(chain=2, wide=2, lists=2, long=2), "C36": dict(long=4, lists=2)}.items():
    PLANS[_p] = before(crowds(**_k), PLANS[_p])

META = {}
NOT = {}
