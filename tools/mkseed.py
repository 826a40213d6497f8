#!/usr/bin/env python3
"""mkseed.py SPEC.py...   Builds and confirms planted bugs.

A spec defines prop, needs, breaks, edits = [(file, old, new)...] and either
test (the body of demo_test.go after the import of the helpers) or files
({name: text}, with a demo.sh).  The result goes to /verif/seeded/<name>."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''package zzdemo

'''

def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def one(spec, base):
    ns = {}
    exec(open(spec).read(), ns)
    name = os.path.basename(spec)[:-3]
    d = os.path.join(V, "seeded", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = os.path.join(V, "tools", "seedlib")
    if "test" in ns:
        shutil.copy(lib + "/demo.sh", d)
        shutil.copy(lib + "/server_test.go", d)
        open(d + "/demo_test.go", "w").write(HEAD + ns["test"].lstrip())
    for f, t in ns.get("files", {}).items():
        open(os.path.join(d, f), "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    sh("git checkout -q -- . && git clean -fdq", base)
    r = sh(f"bash {d}/demo.sh", base)
    if r.returncode != 0:
        return f"{name}: demo fails on the unchanged tree\n{r.stdout[-3000:]}"
    for f, old, new in ns["edits"]:
        p = os.path.join(base, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{name}: {f}: {s.count(old)} places for {old!r}"
        open(p, "w").write(s.replace(old, new))
    r = sh("gofmt -l internal cmd pkg plugins", base)
    diff = sh("git diff", base).stdout
    open(d + "/patch.diff", "w").write(diff)
    r = sh("go build ./... && go vet ./internal/... 2>&1 | grep -v '^#' | head -0", base)
    if r.returncode:
        return f"{name}: does not build\n{r.stdout[-2000:]}"
    r = sh(f"bash {d}/demo.sh", base)
    if r.returncode == 0:
        return f"{name}: demo does not notice the change"
    demo = r.stdout
    b = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("go test -count=1 -json ./... 2>/dev/null", base)
    passed = set()
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("Action") == "pass" and j.get("Test"):
            passed.add(j["Package"] + "/" + j["Test"])
    miss = [t for t in b["stable"] if t not in passed]
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", base)
    if miss:
        return f"{name}: {len(miss)} stable tests fail, e.g. {miss[:3]}"
    return f"{name}: good; demo says: " + " | ".join(l.strip() for l in demo.splitlines() if "_test.go" in l)[:300]

base = tempfile.mkdtemp(prefix="seed")
try:
    sh(f"git worktree add -q --detach {base}/w HEAD", "/repo")
    for s in sys.argv[1:]:
        print(one(s, base + "/w"), flush=True)
finally:
    sh(f"git worktree remove --force {base}/w", "/repo")
    shutil.rmtree(base, ignore_errors=True)
