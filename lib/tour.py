"""From the transitions TLC exported to request sequences for the server."""
import collections, json, random, re
import gen
import vrun

LINE = re.compile(r'^"(EDGE|PRELUDE) (.*)"$')


def parse(out):
    pre, init = [], None
    edges = {}
    for l in out.splitlines():
        m = LINE.match(l.strip())
        if not m:
            continue
        d = json.loads(vrun._untla(m.group(2)))
        if m.group(1) == "PRELUDE":
            pre, init = d["pre"], d["s"]
        else:
            edges[(d["s"], json.dumps(d["c"], sort_keys=True))] = d["t"]
    return pre, init, edges


def tours(init, edges, rng, maxlen=120, limit=None):
    """Walks that together cover the transitions; yields lists of calls."""
    out = collections.defaultdict(list)
    for (s, c), t in sorted(edges.items()):
        out[s].append((c, t))
    todo = {s: list(range(len(v))) for s, v in out.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    # breadth first: distance tree from the initial state, for restarts
    res, total = [], 0

    def route(s):
        """Shortest walk from s to a state with something left to do."""
        if todo.get(s):
            return []
        seen = {s: None}
        q = collections.deque([s])
        while q:
            x = q.popleft()
            for c, t in out.get(x, ()):
                if t in seen:
                    continue
                seen[t] = (x, c)
                if todo.get(t):
                    p = []
                    while seen[t] is not None:
                        x, c = seen[t]
                        p.append((c, t))
                        t = x
                    return p[::-1]
                q.append(t)
        return None

    while left:
        s, walk = init, []
        while left and len(walk) < maxlen:
            r = route(s)
            if r is None:
                break
            for c, t in r:
                walk.append(c)
                s = t
            k = todo[s].pop()
            left -= 1
            c, t = out[s][k]
            walk.append(c)
            s = t
        if not walk:
            break
        res.append([json.loads(c) for c in walk])
        total += len(walk)
        if limit and total >= limit:
            break
    return res, left


class Renamer:
    """Maps the short names of the model to confusable concrete ones."""

    def __init__(self, rng, plain=False):
        r = rng
        self.r = r
        fe, fg = r.choice(gen.FAMILIES)[:], r.choice(gen.FAMILIES)[:]
        r.shuffle(fe)
        r.shuffle(fg)
        if r.random() < .3:
            fg = fe[:]
        self.e = {"root": "root"}
        self.g = {}
        for i, n in enumerate(["e1", "e2", "e3"]):
            self.e[n] = n if plain else fe[i]
        for i, n in enumerate(["g1", "g2", "g3", "g4"]):
            self.g[n] = n if plain else fg[i]
        s = "S%08x" % r.getrandbits(32)
        pool = [s, s + "x", s.upper(), s[:-1], s + " ", "P%06x:%s" % (r.getrandbits(24), "\u00fc")]
        r.shuffle(pool)
        self.s = {"rootpw": "R%08x" % r.getrandbits(32), "s1": pool[0], "s2": pool[1], "s3": pool[2]}
        self.base = dict(zip(["k", "kk"], r.choice([["k", "kk"], ["phone", "Phone"], ["a b", "a"], ["\u00e9", "e"], ["k", "k{x}"], ["*x", "x"], ["1", "11"]])))
        self.kvk = dict(zip(["k", "K"], r.choice([["k", "K"], ["k", "kk"], ["a:b", "a"], ["\u00e9", "e"], ["a b", "a"], ["*a", "a"]])))
        self.kk = dict(zip(["A", "B"], r.choice([["AA", "AAA"], ["k:1", "k"], ["ssh-rsa AA x", "ssh-rsa AA"], ["aa", "AA"], ["AA x", "x"]])))
        self.val = dict(zip(["v", "w"], r.choice([["v", "w"], ["a:b", "a"], ["::", "v"], ["", "v"], ["k:v", "v"]])))
        self.kt = {"ssh": r.choice(["ssh", "SSH", "Ssh"]), "pgp": r.choice(["pgp", "ssh2", "sshx"])}
        def pair(d, keys, p=.35, ok=lambda x: True):
            """Sometimes one name and others that resemble it."""
            if r.random() < p:
                a = d[keys[0]]
                d.update({k: x for k in keys[1:] for x in [gen.near(r, a)] if ok(x) and x not in d.values()})
        self.mk = dict(zip(["Shell", "GECOS"], r.sample(gen.META, 2)))
        self.mv = dict(zip(["x", "y", "d"], r.choice([["x", "y", "d"], ["X", "x", "D"], ["a b", "a", "b"], [" x ", "x", "d "]])))
        if not plain:
            nok = lambda x: not gen.isbad(x)
            pair(self.e, ["e1", "e2", "e3"], .25, nok)
            pair(self.g, ["g1", "g2", "g3", "g4"], .25, nok)
            pair(self.base, ["k", "kk"], ok=lambda x: x and not set(x) & set(":{}*"))
            pair(self.kvk, ["k", "K"], ok=lambda x: x and x[0] != "*")
            pair(self.kk, ["A", "B"], ok=bool)
            pair(self.val, ["v", "w"])
            pair(self.mv, ["x", "y", "d"])

    def m(self, d, k):
        return d.get(k, k)

    def um(self, k):
        i = k.find("{") if ":" not in k else k.find(":")
        b, x = (k, "") if i < 0 else (k[:i], k[i:])
        return self.m(self.base, b) + x

    def call(self, c):
        c = dict(c)
        op = c["op"]
        for f in ("id", "bid"):
            if f in c:
                c[f] = self.m(self.e, c[f])
        for f in ("g", "mb"):
            if f in c:
                c[f] = self.m(self.g, c[f])
        if "gs" in c:
            c["gs"] = [self.m(self.g, x) for x in c["gs"]]
        if "tgt" in c:
            c["tgt"] = self.m(self.e if c.get("direct") else self.g, c["tgt"])
        for f in ("sec", "old", "bsec"):
            if f in c:
                c[f] = self.m(self.s, c[f])
        if op in ("EntityUM", "GroupUM"):
            if c["key"] != "*":
                c["key"] = self.um(c["key"])
            c["val"] = self.m(self.val, c["val"]) if c["act"] == "UPSERT" else ""
        elif op == "EntityKeys":
            if c["typ"]:
                c["typ"] = self.m(self.kt, c["typ"].rstrip(":")) + (":" if ":" in c["typ"] else "")
            c["key"] = self.m(self.kk, c["key"])
        elif "KV" in op:
            if c["key"] != "*":
                c["key"] = self.m(self.kvk, c["key"])
        elif op in ("EntityUpdate",):
            c["meta"] = [[self.m(self.mk, k), self.m(self.mv, v)] for k, v in c["meta"]]
        if "dn" in c:
            c["dn"] = self.m(self.mv, c["dn"])
        return c


def scenarios(pre, walks, rng, name, backends=("memory",), crypto=("nocrypto",), probe=6, extra=None):
    out = []
    for i, w in enumerate(walks):
        rn = Renamer(rng, plain=rng.random() < .1)
        steps = [{"op": "Restart", "ro": False, "bid": "root", "bsec": rn.s["rootpw"]},
                 {"op": "AuthGetToken", "id": "root", "sec": rn.s["rootpw"], "as": "T0"}]
        pr = {"op": "Probe", "ids": [rn.e[x] for x in ("e1", "e2", "e3")], "gs": [rn.g[x] for x in ("g1", "g2", "g3")]}
        steps += [rn.call(c) for c in pre]
        for k, c in enumerate(w):
            steps.append(rn.call(c))
            if probe and k % probe == probe - 1:
                steps.append(pr)
        if probe:
            steps += [pr, {"op": "Restart", "ro": False}, pr]
        out.append({"sid": f"{name}.{i}", "backend": backends[i % len(backends)], "crypto": crypto[i % len(crypto)], "steps": steps})
    return out
