"""Running the conformance driver and TLC."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NETAUTH_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    pass


class Work:
    """A scratch directory below /verif/build, removed at the end."""

    def __init__(self, name):
        base = os.path.join(V, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=name + ".", dir=base)
        self.replays = os.path.join(base, "replay")
        os.makedirs(self.replays, exist_ok=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            # the directory was created above; unreadable parts may exist
            for d, ds, _ in os.walk(self.dir):
                for x in ds:
                    try:
                        os.chmod(os.path.join(d, x), 0o700)
                    except OSError:
                        pass
            shutil.rmtree(self.dir, ignore_errors=True)


def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="", NETAUTH_REPO=REPO)
    return e


def build_driver(work, race=False):
    out = work.path("racebin" if race else "bin")
    r = subprocess.run(["bash", os.path.join(V, "tools/build_driver.sh"), out],
                       env=dict(go_env(), VERIF_RACE="-race" if race else "", **({"CGO_ENABLED": "1"} if race else {})), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("driver build failed:\n" + r.stdout + r.stderr)
    return os.path.join(out, "driver")


# programs of the repository by name
PROGRAMS = {"nsutil": "./cmd/nsutil", "netauthd": "./cmd/netauthd", "netauth": "./cmd/netauth", "fail2lock": "./plugins/tree/fail2lock"}


def build_bin(work, name):
    out = work.path("bins")
    os.makedirs(out, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(out, "netauth" + f[2:])):
            shutil.copy(os.path.join(REPO, f), os.path.join(out, "netauth" + f[2:]))
    r = subprocess.run(["go", "build", "-mod=mod", "-modfile=" + os.path.join(out, "netauth.mod"), "-o", os.path.join(out, name), PROGRAMS[name]],
                       cwd=REPO, env=go_env(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout + r.stderr)
    return os.path.join(out, name)


# ---- driver ----------------------------------------------------------------

def _drive_shard(drv, work, k, scenarios, timeout):
    """Runs scenarios, restarting the driver after a crash; returns lines."""
    lines = []
    todo = list(scenarios)
    attempt = 0
    while todo:
        attempt += 1
        inp, outp = work.path(f"sc{k}.{attempt}.ndjson"), work.path(f"tr{k}.{attempt}.ndjson")
        scratch = work.path(f"scratch{k}.{attempt}")
        rlog = work.path(f"race{k}.{attempt}")
        os.makedirs(scratch)
        with open(inp, "w") as f:
            for s in todo:
                f.write(json.dumps(s) + "\n")
        p = None
        try:
            with open(work.path(f"err{k}.{attempt}"), "wb") as ef:
                p = subprocess.run([drv, "run", inp, outp, scratch], stdout=subprocess.DEVNULL, stderr=ef,
                                   timeout=timeout, env=dict(os.environ, GOMAXPROCS="4", VERIF_BINS=work.path("bins"),
                                            VERIF_RACELOG=rlog, GORACE=f"log_path={rlog} history_size=4"))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        got = []
        try:
            with open(outp) as f:
                for l in f:
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
        except FileNotFoundError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
        if got and got[-1].get("done"):
            lines += got[:-1]
            break
        err = open(work.path(f"err{k}.{attempt}"), errors="replace").read()
        if rc == 3 or not got:
            raise CheckError(f"driver failed ({rc}): {err[-2000:]}")
        if rc == "timeout":
            raise CheckError("driver ran out of time")
        last = got[-1]
        if rc == 8:    # a request was not answered; recorded
            lines += got
            sid = next(l["sid"] for l in reversed(got) if l.get("op") == "Reset")
            todo = todo[[s["sid"] for s in todo].index(sid) + 1:]
            if attempt >= 4:
                break
            continue
        if "begin" not in last:
            raise CheckError(f"driver died between requests ({rc}): {err[-2000:]}")
        # the process died, or hung, during this request
        m = re.search(r"^(panic|fatal error|runtime): .*", err, re.M)
        st = last["step"]
        got.append({"op": "CRASH", "during": st.get("op"), "step": st, "res": "HANG" if rc == 7 else "CRASH",
                    "why": (m.group(0) if m else "")[:300], "sid": last["sid"], "out": [], "de": [], "xe": [], "dg": [], "xg": []})
        lines += got
        ids = [s["sid"] for s in todo]
        todo = todo[ids.index(last["sid"]) + 1:]
        if attempt >= 4:
            break    # the rest is given up, there is enough to report
    return lines


def drive(drv, work, scenarios, timeout=600, shards=None):
    n = shards or NCPU
    parts = [scenarios[k::n] for k in range(n)]
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(len(parts) or 1) as ex:
        return list(ex.map(lambda a: _drive_shard(drv, work, a[0], a[1], timeout), enumerate(parts)))


# ---- TLC -------------------------------------------------------------------

IDX = re.compile(r"{\d+}")


def _strings(x, acc):
    if isinstance(x, str):
        acc.add(x)
    elif isinstance(x, list):
        for y in x:
            _strings(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            _strings(y, acc)


def go_upper(s):
    # strings.ToUpper maps rune by rune
    return "".join(c.upper() if len(c.upper()) == 1 else c for c in s)


def bad_name(s):
    return s in ("", ".", "..") or "/" in s


def tables(lines):
    acc = set()
    for l in lines:
        _strings(l, acc)
    return {"op": "Tables",
            "base": dict({"{0}": ""}, **{s: IDX.sub("", s) for s in acc if IDX.search(s)}),
            "upper": dict({"a": "A"}, **{s: go_upper(s) for s in acc if go_upper(s) != s}),
            "bad": dict({"": 1}, **{s: 1 for s in acc if bad_name(s)}),
            "colon": dict({":": 1}, **{s: 1 for s in acc if ":" in s})}


def canon(x):
    """A text for a value whose lists are in no particular order."""
    def norm(v):
        if isinstance(v, dict):
            return {k: norm(w) for k, w in sorted(v.items())}
        if isinstance(v, list):
            return sorted((norm(w) for w in v), key=lambda w: json.dumps(w, sort_keys=True))
        return v
    return json.dumps(norm(x), sort_keys=True)


def tlc(module, cfg, workdir, env=None, args=(), heap="1500m", timeout=800, workers=1, spec=None):
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-fp", "7", "-workers", str(workers), "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=spec or os.path.join(V, "spec"), env=e, capture_output=True, text=True, timeout=timeout,
                           errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else str(x.stdout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


MSG = re.compile(r'^"(MISMATCH|JUDGED) (.*)"$')


def _untla(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def validate(work, lines, name, module="Trace.tla", cfg="Trace.cfg", timeout=800):
    """Judges one trace; returns ([(line index, tags)], stats)."""
    body = [l for l in lines if "begin" not in l]
    if not body:
        return [], body
    f = work.path(f"trace.{name}.ndjson")
    with open(f, "w") as fh:
        for l in [tables(body)] + body:
            fh.write(json.dumps(l) + "\n")
    rc, out = tlc(module, cfg, work.dir, env={"TRACE": f}, timeout=timeout)
    bad, judged = [], None
    for l in out.splitlines():
        m = MSG.match(l.strip())
        if m:
            d = json.loads(_untla(m.group(2)))
            if m.group(1) == "MISMATCH":
                bad.append((d["line"] - 2, sorted(d["tags"])))
            else:
                judged = d
    if judged is None or judged["lines"] != len(body):
        raise CheckError(f"TLC did not judge the trace {name} ({rc}):\n" + out[-3000:])
    return bad, body


def split_scenarios(lines):
    out, cur = [], None
    for l in lines:
        if l.get("op") == "Reset":
            cur = [l]
            out.append(cur)
        elif cur is not None:
            cur.append(l)
    return out


def validate_all(work, shards, module="Trace.tla", cfg="Trace.cfg", maxlines=12000, timeout=800):
    """Judges all lines, balanced over JVMs. Returns [(body, index, tags)], number of lines."""
    scs = [s for lines in shards for s in split_scenarios([l for l in lines if "begin" not in l])]
    total = sum(len(s) for s in scs)
    n = max(1, min(NCPU, total // 150 + 1), (total + maxlines - 1) // maxlines)
    bins = [[] for _ in range(n)]
    size = [0] * n
    for s in sorted(scs, key=len, reverse=True):
        k = size.index(min(size))
        bins[k].append(s)
        size[k] += len(s)
    bodies = [[l for s in b for l in s] for b in bins if b]
    res = []
    with ThreadPoolExecutor(NCPU) as ex:
        for bad, body in ex.map(lambda a: validate(work, a[1], a[0], module, cfg, timeout), enumerate(bodies)):
            res += [(body, i, t) for i, t in bad]
    return res, total
