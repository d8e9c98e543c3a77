#!/usr/bin/env python3
"""Decide one property: instrument /repo's current sources, build the explorer,
explore with all cores, write evidence/<id>.json, report.

  check.py PROPERTY [--secs N] [--only RE] [--bound N] [--keep] | --replay FILE | --build DIR
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(HERE, "mc")

def env():
    e = dict(os.environ)
    gobin = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(gobin):
        e["PATH"] = gobin + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off", CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e

class ToolError(Exception):
    pass

def sh(args, cwd, e, what):
    p = subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout

def build(S):
    e = env()
    e["GOFLAGS"] = "-mod=mod"
    sh(["go", "build", "-o", S + "/instrument", "./cmd/instrument"], MC, e, "building the instrumenter")
    # a scratch copy of the repository's non-test sources as they are now
    src = S + "/src"
    os.makedirs(src)
    for f in ("go.mod", "go.sum"):
        if os.path.exists(REPO + "/" + f):
            shutil.copy(REPO + "/" + f, src + "/" + f)
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if not d.startswith((".", "_")) and d not in ("testdata", "vendor", "examples", "example")]
        rel = os.path.relpath(root, REPO)
        for f in files:
            if f.endswith(".go") and not f.endswith("_test.go"):
                os.makedirs(os.path.join(src, rel), exist_ok=True)
                shutil.copy(os.path.join(root, f), os.path.join(src, rel, f))
    mod = json.loads(sh(["go", "mod", "edit", "-json"], src, e, "reading go.mod"))
    path = mod["Module"]["Path"]
    reqs = {r["Path"]: r["Version"] for r in mod.get("Require") or []}
    gw = "github.com/gorilla/websocket"
    e2 = dict(e, GOFLAGS="-mod=mod")
    sh([S + "/instrument", "-dir", src, "-out", S + "/inst", "-mods", "%s=full,%s=quiet" % (path, gw)], src, e2, "instrumenting")
    shutil.copy(src + "/go.mod", S + "/inst/" + path + "/go.mod")
    open(S + "/inst/" + gw + "/go.mod", "w").write("module %s\n\ngo 1.12\n" % gw)
    lines = ["module vmc", "", "go 1.21", ""]
    lines.append("require %s v0.0.0" % path)
    for k, v in reqs.items():
        lines.append("require %s %s" % (k, v))
    lines.append("replace %s => %s" % (path, S + "/inst/" + path))
    lines.append("replace %s => %s" % (gw, S + "/inst/" + gw))
    for r in mod.get("Replace") or []:
        if r["Old"]["Path"] not in (gw, path):
            n = r["New"]
            lines.append("replace %s => %s %s" % (r["Old"]["Path"], n["Path"], n.get("Version", "")))
    open(S + "/mc.mod", "w").write("\n".join(lines) + "\n")
    shutil.copy(src + "/go.sum", S + "/mc.sum")
    sh(["go", "build", "-modfile=" + S + "/mc.mod", "-o", S + "/mc", "./cmd/mc"], MC, e, "building the explorer")
    return S + "/mc"

def merge(outs):
    st = {}
    for o in outs:
        for s in o["stats"]:
            t = st.get(s["scenario"])
            if t is None:
                st[s["scenario"]] = dict(s)
                continue
            for k in ("executions", "pruned", "states", "transitions", "pending", "deeper"):
                t[k] += s[k]
            t["completed_bound"] = min(t["completed_bound"], s["completed_bound"])
            t["exhaustive"] = t["exhaustive"] and s["exhaustive"]
            for k in ("max_decisions", "max_steps", "wall_ms"):
                t[k] = max(t[k], s[k])
            for k in ("outcomes", "coverage"):
                for x, n in (s[k] or {}).items():
                    t[k][x] = t[k].get(x, 0) + n
            t["samples"] = ((t["samples"] or []) + (s["samples"] or []))[:4]
    return list(st.values())

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--secs", type=float)
    ap.add_argument("--only", default="")
    ap.add_argument("--bound", type=int, default=-1)
    ap.add_argument("--replay")
    ap.add_argument("--build")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.build:
        os.makedirs(a.build, exist_ok=True)
        print(build(os.path.abspath(a.build)))
        return 0
    S = tempfile.mkdtemp(prefix="vmc-")
    try:
        if a.replay:
            mc = build(S)
            return subprocess.run([mc, "-replay", os.path.abspath(a.replay)]).returncode
        return check(a, S)
    except ToolError as e:
        print("TOOL-ERROR:", e)
        return 2
    finally:
        shutil.rmtree(S, ignore_errors=True)

def attribute(mc, S, crashed, e):
    """A worker that died: does the schedule it was running kill the process again?"""
    out = []
    for i, rc, log in crashed:
        st = "%s/out%d.json.status" % (S, i)
        try:
            v = json.loads(open(st).readline())
        except (OSError, ValueError):
            continue
        try:
            p = subprocess.run([mc, "-replay", st], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode not in (0, 1) and "mc:" not in p.stdout[:3]:
            tail = [l for l in p.stdout.splitlines() if l.startswith(("fatal error", "panic", "runtime:"))][:3]
            v["message"] = "the process dies running this schedule (exit %d): %s" % (p.returncode, "; ".join(tail) or p.stdout[-400:])
            out.append(v)
            break
    return out

def check(a, S):
    t0 = time.time()
    mc = build(S)
    tb = time.time() - t0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = a.secs or (float(os.environ.get("VERIF_SECS", 0)) or (120 if a.tier == "quick" else 600))
    n = min(8, os.cpu_count() or 1)
    procs = []
    e = dict(env(), GOMAXPROCS="1")
    for i in range(n):
        out = "%s/out%d.json" % (S, i)
        log = open("%s/log%d" % (S, i), "w")
        procs.append((subprocess.Popen([mc, "-prop", a.prop, "-tier", a.tier, "-shard", str(i), "-shards", str(n), "-seed", str(seed), "-secs", str(secs), "-out", out,
              "-known", HERE + "/known_findings.json", "-only", a.only, "-bound", str(a.bound)], env=e, stdout=log, stderr=subprocess.STDOUT), out, log))
    outs, crashed = [], []
    for i, (p, out, log) in enumerate(procs):
        try:
            p.wait(timeout=secs * 1.5 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.close()
        if os.path.exists(out):
            outs.append(json.load(open(out)))
        else:
            crashed.append((i, p.returncode, open(log.name).read()[-3000:]))
    viol = [v for o in outs for v in (o["violations"] or [])]
    viol += attribute(mc, S, crashed, e)
    unstable = [u for o in outs for u in (o["unstable"] or [])]
    known = {}
    for o in outs:
        for k, c in (o["known"] or {}).items():
            known[k] = known.get(k, 0) + c
    stats = merge(outs)
    tot = lambda k: sum(s[k] for s in stats)
    cov = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("executions"),
        "exhaustive": bool(stats) and all(s["completed_bound"] >= s["bound"] for s in stats if not s["optional"]) and not crashed,
        "explanation": "Every execution runs the instrumented implementation itself. states: distinct happens-before state signatures; transitions: synchronisation and memory operations executed; traces: complete or pruned executions of the real code. exhaustive: every schedule/input within each scenario's stated deviation bound was run; optional: scenarios of the thorough tier, run in the time left and not complete unless completed_bound says so; deeper: executions of schedules one deviation beyond that bound, run in the time left and not complete unless completed_bound says so.",
        "executions_pruned_by_state_cache": tot("pruned"),
        "scenarios": [{k: s[k] for k in ("scenario", "variants", "bound", "completed_bound", "executions", "states", "transitions", "max_decisions", "max_steps", "pending", "deeper", "optional", "wall_ms")} |
                      {"distinct_outcomes": len(s["outcomes"] or {}), "coverage": s["coverage"]} for s in stats],
        "samples": [x for s in stats for x in (s["samples"] or [])[:2]][:12] or ["none"],
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["sequentially consistent memory between synchronisation operations", "in-memory network: reliable, ordered byte streams", "virtual time advances only when nothing can run"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, a.prop), "w"), indent=1)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (a.prop, k, known[k]))
    for s in stats:
        print("%-28s variants %-5d bound %d completed %d executions %-8d states %-9d outcomes %-4d deeper %-7d %.1fs" % (s["scenario"], s["variants"], s["bound"], s["completed_bound"], s["executions"], s["states"], len(s["outcomes"] or {}), s["deeper"], s["wall_ms"] / 1000))
    print("build %.1fs total %.1fs" % (tb, time.time() - t0))
    if viol:
        viol.sort(key=lambda v: (len(v["deviations"] or []), v["scenario"], v["variant"]))
        v = viol[0]
        rd = HERE + "/evidence/replay"
        os.makedirs(rd, exist_ok=True)
        path = "%s/%s.json" % (rd, a.prop)
        json.dump(v, open(path, "w"), indent=1)
        print("scenario %s variant %d %s deviations %s" % (v["scenario"], v["variant"], v.get("variant_name", ""), v["deviations"]))
        print(v["kind"] + ": " + v["message"])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if unstable or crashed or not stats:
        for u in unstable:
            print("UNSTABLE:", u)
        for c in crashed:
            print("WORKER-CRASH:", *c)
        return 2
    return 0

sys.exit(main())
