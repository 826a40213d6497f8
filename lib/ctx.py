"""One run of one check: collects work, runs it, reports."""
import collections, json, os, random, sys, time
from concurrent.futures import ThreadPoolExecutor
import re
import gen, tour, vrun
from vrun import V, CheckError

STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


# which specification judges the traces of which part
TRACES = {"": "Trace", "store": "TraceStore", "token": "TraceToken", "health": "TraceHealth", "cache": "TraceCache", "copy": "TraceCopy",
          "client": "TraceClient", "cli": "TraceCli", "plugin": "TracePlugin", "f2l": "TraceF2L"}


MULT = {"C29": 1, "C30": 1, "C24": 2, "C26": 2, "C06": 2, "C32": 2}


def load_known():
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}/{seed}")
        self.work = vrun.Work(pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples = []
        self.notes = []
        self.viol = []          # (what, replay object)
        self.knownhits = []
        self.cover = collections.Counter()
        self.others = collections.Counter()
        self.known = load_known()
        self._drv = self._racedrv = None
        self.todo = []
        self.bins = {}

    # ---- building blocks
    def x(self, quick, thorough):
        """A volume of work; MULT says how much a quick check can bear."""
        return thorough if self.thorough else min(thorough, int(quick * MULT.get(self.pid, 3)))

    @property
    def drv(self):
        if self._drv is None:
            self._drv = vrun.build_driver(self.work)
        return self._drv

    @property
    def racedrv(self):
        """The driver, noticing unsynchronised accesses."""
        if self._racedrv is None:
            self._racedrv = vrun.build_driver(self.work, race=True)
        return self._racedrv

    def bin(self, *names):
        """Programs of the repository that the driver runs."""
        for n in names:
            if n not in self.bins:
                self.bins[n] = vrun.build_bin(self.work, n)

    def mc(self, cfg, module="MC.tla", timeout=700, workers=2, heap="3g"):
        """Explores a configuration; the model itself must be right."""
        rc, out = vrun.tlc(module, f"cfg/{cfg}.cfg", self.work.dir, timeout=timeout, workers=workers, heap=heap)
        m = STATS.search(out)
        if rc != 0 or not m or "No error has been found" not in out:
            tail = "\n".join(l for l in out.splitlines() if "EDGE" not in l)[-3000:]
            raise CheckError(f"model {module} {cfg} does not check ({rc}):\n{tail}")
        self.states += int(m.group(2))
        self.transitions += int(m.group(1)) - 1
        return out

    def models(self, cfgs, **kw):
        """Several configurations at once, and the driver build beside them."""
        with ThreadPoolExecutor(5) as ex:
            b = ex.submit(lambda: self.drv)
            fs = [(c, ex.submit(self.mc, c, **kw)) for c in cfgs]
            res = {c: f.result() for c, f in fs}
            b.result()
        return res

    def replay(self, out, name, limit=4000, maxlen=120, **kw):
        """Queues walks through the exported transitions."""
        pre, init, edges = tour.parse(out)
        walks, left = tour.tours(init, edges, self.rng, maxlen, limit)
        self.notes.append(f"{name}: {len(edges)} transitions, {len(edges) - left} replayed in {len(walks)} walks")
        self.scen(tour.scenarios(pre, walks, self.rng, name, **kw))

    def shuffled(self, out, name, limit=4000, chunk=40, **kw):
        """Queues the requests of the exported transitions in random order."""
        pre, init, edges = tour.parse(out)
        calls = sorted({c for _, c in edges})
        cs = [json.loads(c) for c in calls]
        walks = []
        n = 0
        while n < limit:
            self.rng.shuffle(cs)
            walks += [cs[i:i + chunk] for i in range(0, len(cs), chunk)]
            n += len(cs)
        while sum(len(w) for w in walks) > limit and len(walks) > 1:
            walks.pop()
        self.notes.append(f"{name}: {len(cs)} requests in {len(walks)} random orders")
        self.scen(tour.scenarios(pre, walks, self.rng, name, **kw))

    def soups(self, count, backends=("memory",), crypto=("nocrypto",), name="soup", **kw):
        for i in range(count):
            g = gen.soup(self.rng, **kw)
            self.scen([{"sid": f"{name}.{i}", "backend": backends[i % len(backends)], "crypto": crypto[i % len(crypto)], "steps": g.steps}])

    def gens(self, count, f, name, backends=("memory",), crypto=("nocrypto",), **kw):
        """Sequences of another generator."""
        for i in range(count):
            g = f(self.rng, **kw)
            self.scen([{"sid": f"{name}.{i}", "backend": backends[i % len(backends)], "crypto": crypto[i % len(crypto)], "steps": g.steps}])

    def modreplay(self, out, name, mod, conc, limit=2000, maxlen=60, backends=("",), close=()):
        """Walks through the transitions of another part's specification."""
        pre, init, edges = tour.parse(out)
        walks, left = tour.tours(init, edges, self.rng, maxlen, limit)
        self.notes.append(f"{name}: {len(edges)} transitions, {len(edges) - left} replayed in {len(walks)} walks")
        for i, w in enumerate(walks):
            f = conc(self.rng, i)
            self.scen([{"sid": f"{name}.{i}", "mod": mod, "backend": backends[i % len(backends)], "steps": [f(c) for c in w] + list(close)}])

    def scen(self, scs):
        self.todo += scs

    def run(self, timeout=700, race=False):
        mods = sorted({s.get("mod", "") for s in self.todo})
        todo, self.todo = self.todo, []
        for m in mods:
            self._run([s for s in todo if s.get("mod", "") == m], TRACES[m], timeout, race)

    def _run(self, scs, module, timeout, race=False):
        if not scs:
            return
        self.rng.shuffle(scs)
        by = {s["sid"]: s for s in scs}
        if len(by) != len(scs):
            for i, s in enumerate(scs):
                s["sid"] += f"#{i}"
            by = {s["sid"]: s for s in scs}
        t0 = time.time()
        shards = vrun.drive(self.racedrv if race else self.drv, self.work, scs, timeout=timeout)
        for sh in shards:
            for l in sh:
                if "begin" not in l and l.get("op") != "Reset":
                    self.cover[(l.get("op"), str(l.get("res")))] += 1
        t1 = time.time()
        mism, total = vrun.validate_all(self.work, shards, module=module + ".tla", cfg=module + ".cfg", timeout=timeout)
        self.traces += len(scs)
        self.lines += total
        if os.environ.get("VERIF_VERBOSE"):
            print(f"time: models {t0 - self.t0:.1f} drive {t1 - t0:.1f} judge {time.time() - t1:.1f}")
        for s in scs[:3]:
            if len(self.samples) < 4:
                self.samples.append({"sid": s["sid"], "backend": s.get("backend"), "steps": s["steps"][:12]})
        for body, idx, tags in mism:
            sid = next(body[k]["sid"] for k in range(idx, -1, -1) if body[k].get("op") == "Reset")
            l = body[idx]
            if self.pid not in tags:
                for t in tags:
                    self.others[t] += 1
                if os.environ.get("VERIF_VERBOSE"):
                    print("other:", tags, sid, json.dumps(l)[:600])
                    with open(os.path.join(self.work.replays, "other.json"), "w") as f:
                        json.dump({"property": tags[0], "tags": tags, "scenario": by.get(sid), "line": l}, f, indent=1, default=str)
                continue
            first = idx
            while body[first].get("op") != "Reset":
                first -= 1
            self.violation(f"{l.get('op')} -> {l.get('res')}", {"property": self.pid, "tags": tags, "scenario": by.get(sid), "at": idx - first - 1, "line": l})

    def agree(self, scs, backends, timeout=700):
        """The same scenarios over several backends, compared line by line."""
        allsc = [dict(s, sid=f"{s['sid']}@{b}", backend=b) for s in scs for b in backends]
        by = {s["sid"]: s for s in allsc}
        shards = vrun.drive(self.drv, self.work, allsc, timeout=timeout)
        runs = {}
        for sh in shards:
            for s in vrun.split_scenarios([l for l in sh if "begin" not in l]):
                runs[s[0]["sid"]] = s
        merged = []
        for s in scs:
            rs = [runs.get(f"{s['sid']}@{b}") for b in backends]
            if any(r is None for r in rs):
                continue
            cur = [{"op": "Reset", "sid": s["sid"]}]
            known = [{} for _ in rs]
            for ls in zip(*rs):
                if ls[0]["op"] != "Reset":
                    chgs = []
                    for st, l in zip(known, ls):
                        new = {(k[1], r[0]): vrun.canon(r[1]) for k in ("de", "dg") for r in l.get(k, [])}
                        # rewritten records with the same content are no change
                        ch = sorted([k, v] for k, v in new.items() if st.get(k) != v)
                        st.update(new)
                        chgs.append(vrun.canon([ch, l.get("xe"), l.get("xg"), l.get("broken")]))
                    cur.append({"op": ls[0]["op"], "ress": [l["res"] for l in ls],
                                "outs": [vrun.canon({k: l.get(k) for k in ("out", "ei", "gi", "eg", "gm")}) for l in ls],
                                "chgs": chgs})
            merged.append(cur)
        mism, total = vrun.validate_all(self.work, merged, module="TraceAgree.tla", cfg="TraceAgree.cfg", timeout=timeout)
        self.traces += len(allsc)
        self.lines += total
        self.notes.append(f"{len(scs)} histories compared over {', '.join(backends)}")
        for body, idx, tags in mism:
            k = idx
            while body[k].get("op") != "Reset":
                k -= 1
            base = next(s for s in scs if s["sid"] == body[k]["sid"])
            self.violation(f"{body[idx]['op']}: backends differ", {"property": self.pid, "tags": tags, "scenario": base, "agree": list(backends), "at": idx - k - 1, "line": body[idx]})

    def violation(self, what, rep):
        sid = (rep.get("scenario") or {}).get("sid", "")
        for k in self.known["known"]:
            if k["property"] == self.pid and sid.split("#")[0] == k.get("sid") and rep.get("at") in k.get("at", []):
                self.knownhits.append(k)
                return
        self.viol.append((what, rep))

    # ---- the end
    def finish(self, level="model_checking", extra=None):
        wall = time.time() - self.t0
        seen = set()
        for k in self.knownhits:
            if k["sid"] not in seen:
                seen.add(k["sid"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "requests_judged": self.lines, "samples": self.samples or [{"note": "none"}],
               "results": {f"{o}:{r}": n for (o, r), n in sorted(self.cover.items())},
               "explanation": "; ".join(self.notes)}
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": ["the specification in /verif/spec states the property", "TLC and the driver's projection of records are right"],
              "wall_s": round(wall, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.others:
            print("note: deviations concerning other properties:", dict(self.others))
        for i, (what, rep) in enumerate(self.viol[:5]):
            p = os.path.join(self.work.replays, f"{self.pid}.{self.seed}.{i}.json")
            with open(p, "w") as f:
                json.dump(rep, f, indent=1, default=str)
            print(f"{what}")
            print(f"VIOLATION property={self.pid} replay={p}")
        print(f"{self.pid}: {self.states} states, {self.transitions} transitions, {self.traces} traces, {self.lines} requests, "
              f"{len(self.viol)} violations, {wall:.1f} s")
        return 1 if self.viol else 0
