#!/usr/bin/env python3
"""Makes and validates planted bugs. usage: mkseed.py DEFS.py [ID...]
A definition file calls bug(id, prop, needs, breaks, edits=[(file, old, new)], pkg, test, race=False).
Validation happens in a scratch copy of /repo: demo passes, patch applies, builds, the stable tests pass, demo fails."""
import json, os, shutil, subprocess, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; "
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))

ENGINE = open(os.path.join(H, "tools/seeds/engine_helper.go")).read()
SIO = open(os.path.join(H, "tools/seeds/sio_helper.go")).read()

def sh(c, cwd, timeout=400):
    try:
        p = subprocess.run(["bash", "-c", ENV + c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp) || exit 2
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(dir)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$o"
go test%(race)s -overlay "$o" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(dir)s
'''

def bug(id, prop, needs, breaks, edits, pkg, test, race=False, helper=True):
    if want and id not in want: return
    d = "/tmp/seed." + id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), d], check=True)
    out = os.path.join(H, "seeded", id)
    os.makedirs(out, exist_ok=True)
    dirn = "engine/" if pkg.startswith("engine") else ""
    src = (ENGINE if pkg.startswith("engine") else SIO) if helper else ""
    src = "package %s\n" % pkg + (src + test if helper else test)
    open(out + "/demo_test.go", "w").write(src)
    subprocess.run(["bash", "-c", ENV + "gofmt -w " + out + "/demo_test.go"])
    open(out + "/demo.sh", "w").write(DEMO % {"dir": dirn, "race": " -race" if race else ""})
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    r, o = sh("bash %s/demo.sh" % out, d)
    if r: print(id, "DEMO FAILS ON CLEAN", o[-1500:]); return
    for f, a, b in edits:
        s = open(d + "/" + f).read()
        if s.count(a) < 1: print(id, "NO MATCH in", f, ":", a); return
        s = s.replace(a, b, 1)
        open(d + "/" + f, "w").write(s)
    sh("gofmt -w *.go engine/*.go", d)
    p = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
    open(out + "/patch.diff", "w").write(p)
    r, o = sh("go build ./...", d)
    if r: print(id, "BUILD FAILS", o[-800:]); return
    r, o = sh("go test -json -vet=off -count=1 -timeout 10m ./...", d)
    ok = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    bad = [n for n in base["stable"] if n not in ok]
    if bad: print(id, "TESTS FAIL", bad); return
    r, o = sh("bash %s/demo.sh" % out, d)
    if r == 0: print(id, "DEMO PASSES WITH BUG"); return
    line = [l for l in o.splitlines() if "demo_test.go" in l or "panic" in l or "DATA RACE" in l or "timed out" in l]
    print(id, "ok  demo:", (line or o.splitlines()[-3:])[0].strip()[:150])
    sh("go test -count=1 ./... >/dev/null", d)
    shutil.rmtree(d, ignore_errors=True)

exec(open(sys.argv[1]).read())
