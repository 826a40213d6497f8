"""Sequences for the storage backends by themselves."""
import random
import gen

# system calls that touch files; the ones that change something
ALLSYS = "openat,write,pwrite64,renameat,renameat2,unlinkat,fsync,fdatasync,ftruncate,mkdirat,fchmod,fchmodat,flock"
PAIRS = [["a", "ab"], ["x", "x "], ["\u00e9", "e"], ["A", "a"], ["a.b", "a"], [".a", "a"], ["a*", "a"], ["[a]", "a"], ["a\\", "a"], ["-", "--"],
         ["root", "root2"], ["k\nl", "k"], ["lock", "index"], ["..a", "..."], ["kv", "bc"]]


def val(r, big=.12):
    n = r.choice([4000, 4096, 4200, 9000, 70000]) if r.random() < big else r.choice([0, 1, 7, 30, 200])
    return "%06x:%d" % (r.getrandbits(24), n)


class Names:
    def __init__(self, r):
        p = r.choice(PAIRS)[:]
        r.shuffle(p)
        self.m = {"a": p[0], "ab": p[1]}
        # prefixes are searched for literally: no pattern characters
        self.lit = not any(c in x for x in p for c in "*[]\\")
        if self.lit and not (p[1].startswith(p[0])):
            self.m = {"a": p[1], "ab": p[0]}
        self.v = {"v": val(r), "w": val(r)}

    def call(self, c):
        c = dict(c)
        if "k" in c:
            c["k"] = [c["k"][0], self.m[c["k"][1]]]
        if "v" in c:
            c["v"] = self.v[c["v"]]
        if c["op"] == "Keys":
            if c["pre"] and not self.lit:
                c["pre"] = ""
            c["pre"] = self.m.get(c["pre"], c["pre"])
            c["dir"] = c["dir"]
            if c["pre"] == "":
                c["star"] = True
        return c


def soup(r, n=40, backend="memory"):
    names = r.choice(PAIRS) + ["n%d" % i for i in range(r.choice([1, 3, 8]))]
    lit = [x for x in names if not any(c in x for c in "*[]\\")]
    dirs = r.choice([["entities", "groups"], ["entities", "groups", "other"], ["entities", "groups", "group"]])
    steps = []

    def key():
        return [r.choice(dirs), r.choice(names)]

    def one():
        o = r.choices(["Put", "Get", "Del", "Keys"], [5, 3, 3, 2])[0]
        if o == "Put":
            return {"op": o, "k": key(), "v": val(r)}
        if o == "Keys":
            x = r.random()
            if x < .6:
                return {"op": o, "dir": r.choice(dirs[:2] + ["*"]), "pre": "", "star": True}
            return {"op": o, "dir": r.choice(dirs + ["*"]), "pre": r.choice(lit), "star": x < .8}
        if o in ("Get", "Del") and r.random() < .1:
            # names that no file can have: never stored here
            return {"op": o, "k": [r.choice(dirs), r.choice(["a\0", "\0", "n" * 256, "n0" * 4000, "n0\0x"])]}
        return {"op": o, "k": key()}

    for _ in range(n):
        x = r.random()
        if backend != "memory" and x < .08:
            steps.append({"op": "Reopen"})
        elif x < .13:
            bs = []
            own = names[:]
            r.shuffle(own)
            k = r.choice([2, 3, 4])
            for j in range(k):
                mine = own[j::k]
                b = []
                for _ in range(r.choice([2, 5, 10])):
                    c = one()
                    if c["op"] == "Keys":
                        c["pre"], c["star"] = "", True
                    elif not mine:
                        continue
                    else:
                        c["k"] = [r.choice(dirs), r.choice(mine)]
                    b.append(c)
                if b:
                    bs.append(b)
            steps.append({"op": "Par", "branches": bs})
        else:
            steps.append(one())
    return steps


def kill(r, mode, backend, points=6):
    """A few operations before, then a child that is cut short."""
    names = ["a", "b", "a b"]

    def key():
        return [r.choice(["entities", "groups"]), r.choice(names)]

    def one(big=.3):
        o = r.choices(["Put", "Del", "Get", "Keys"], [6, 3, 1 if mode == "kill" else 4, 0 if mode == "kill" else 3])[0]
        if o == "Put":
            return {"op": o, "k": key(), "v": val(r, big)}
        if o == "Keys":
            return {"op": o, "dir": r.choice(["entities", "groups", "*"]), "pre": "", "star": True}
        return {"op": o, "k": key()}
    steps = [one() for _ in range(r.choice([0, 2, 4]))]
    if r.random() < .5:
        steps.append({"op": "Reopen"})
        steps += [one() for _ in range(r.choice([0, 1, 2]))]
    for _ in range(points):
        cs = [one() for _ in range(r.choice([1, 2, 4]))]
        k = {"op": "KillRun", "mode": mode, "close": r.random() < .6, "steps": cs}
        if mode == "kill":
            if r.random() < .25:
                cs.append({"op": "Close"})
            k["calls"] = ALLSYS
            k["inject"] = "signal=KILL:when=NTH"
            k["n"] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20, 25, 30, 40, 60])
        elif mode == "run":
            # not disturbed: only stopped without closing
            k.update(mode="kill", calls="kill", inject="", n=0)
            if r.random() < .3:
                cs.append({"op": "Close"})
        else:
            c, e = r.choice([("write", "ENOSPC"), ("write", "EIO"), ("openat", "EMFILE"), ("openat", "EIO"), ("renameat,renameat2", "EIO"), ("unlinkat", "EIO"),
                             ("unlinkat", "EPERM"), ("fsync", "EIO"), ("pread64", "EIO"), ("read", "EIO"), ("getdents64", "EIO"), ("fchmod", "EPERM"), ("mkdirat", "ENOSPC")])
            k["calls"], k["inject"] = c, f"error={e}:when=NTH"
            k["n"] = r.randrange(1, 14)
        steps.append(k)
        if r.random() < .3:
            steps.append(one())
        if r.random() < .2:
            steps.append({"op": "Reopen"})
    return steps
