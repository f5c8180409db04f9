#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--keep]

Builds the harness of one property against /repo's working tree (instrumented through a go build
overlay; nothing is written in /repo), explores, and reports."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/ahKevinXy/go-web-tools"

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED="0", GOWORK="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    return e

def header(hid):
    rw, opts = [], {}
    with open(os.path.join(VERIF, "h", hid.lower(), "main.go")) as f:
        for l in f:
            m = re.match(r"//\s*verif:rewrite\s+(\S+)\s+(\S+)", l)
            if m:
                rw.append({"pkg": m.group(1), "modes": m.group(2)})
            m = re.match(r"//\s*verif:(shards|seconds|timeout)\s+(\S+)(?:\s+(\S+))?", l)
            if m:
                opts[m.group(1)] = [m.group(2), m.group(3) or m.group(2)]
            if l.startswith("package "):
                break
    return rw, opts

class BuildError(Exception):
    pass

def build(hid, work):
    rw, opts = header(hid)
    E = env()
    for n in ("go.mod", "go.sum"):
        s = os.path.join(REPO, n)
        if os.path.exists(s):
            shutil.copy(s, os.path.join(work, n))
    modfile = os.path.join(work, "go.mod")
    rwbin = os.path.join(work, "rewriter")
    r = subprocess.run(["go", "build", "-o", rwbin, "."], cwd=os.path.join(VERIF, "tools", "rewriter"), env=dict(E, GOFLAGS=""), capture_output=True, text=True)
    if r.returncode:
        raise BuildError("rewriter: " + r.stderr[-3000:])
    hb = os.path.join(work, "harness")
    attempts = [rw]
    for drop in (("fs",), ("mem",), ("mem", "fs"), ("mem", "fs", "maps"), ("mem", "fs", "maps", "tick")):
        a = [{"pkg": x["pkg"], "modes": ",".join(m for m in x["modes"].split(",") if m not in drop)} for x in rw]
        a = [x for x in a if x["modes"]]
        if a not in attempts:
            attempts.append(a)
    err = ""
    for i, a in enumerate(attempts):
        out = os.path.join(work, "ov%d" % i)
        os.makedirs(out)
        static = ",".join("zzverif/%s=%s" % (k, os.path.join(VERIF, k)) for k in ("rt", "vh", "shim", "lib")) + ",zzverif/h/%s=%s" % (hid.lower(), os.path.join(VERIF, "h", hid.lower()))
        r = subprocess.run([rwbin, "-repo", REPO, "-out", out, "-cfg", json.dumps(a), "-static", static, "-modfile", modfile], env=E, capture_output=True, text=True, cwd=REPO)
        if r.returncode:
            err += r.stderr[-2000:]
            continue
        r = subprocess.run(["go", "build", "-modfile=" + modfile, "-overlay", os.path.join(out, "overlay.json"), "-o", hb, MOD + "/zzverif/h/" + hid.lower()], cwd=REPO, env=E, capture_output=True, text=True)
        if r.returncode == 0:
            if i:
                print("note: instrumentation reduced to %s (%s)" % (json.dumps(a), err.strip()[-300:]))
            return hb, opts
        err += r.stderr[-3000:]
    raise BuildError(err)

def demote():
    # the code under test runs as nobody, with nothing of its own but the scratch directory
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)

def harness(hb, args, cwd, timeout):
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd, "TMPDIR": cwd, "GOMAXPROCS": "2", "GOMEMLIMIT": "2500MiB", "LANG": "C.UTF-8", "TZ": "UTC", "GOGC": "200"}
    pre = demote if os.geteuid() == 0 else None
    return subprocess.Popen([hb] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre)

SHM = []

def spec(v, work):
    c = ",".join(map(str, v["choice"]))
    if len(c) > 50000: # too long for an argument
        f = os.path.join(work, "choices-%d" % (hash(c) & 0xffffffff))
        open(f, "w").write(c)
        os.chmod(f, 0o644)
        c = "@" + f
    return "%s:%s" % (v["scenario"], c)

def mkscratch(work, name):
    # memory-backed where possible: the file checks make millions of small files
    base = work
    if os.access("/dev/shm", os.W_OK):
        if not SHM:
            SHM.append(tempfile.mkdtemp(prefix="verif-", dir="/dev/shm"))
            os.chmod(SHM[0], 0o755)
        base = SHM[0]
    d = os.path.join(base, name)
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o700)
    if os.geteuid() == 0:
        os.chown(d, 65534, 65534)
    return d

def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "known"]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    os.chmod(work, 0o755)
    try:
        rc = run(a, work, t0)
    finally:
        if a.keep:
            print("kept", work)
        else:
            subprocess.run(["chmod", "-R", "u+rwX", work] + SHM, capture_output=True)
            for d in [work] + SHM:
                shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def violation(a, v):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, "replay-%s.json" % a.id)
    v = dict(v)
    v["trace"] = (v.get("trace") or [])[-400:]
    json.dump(dict(property=a.id, **v), open(rp, "w"), indent=1)
    print("violated: scenario %s, key %s" % (v.get("scenario"), v.get("key")))
    print(str(v.get("msg"))[:3000])
    for l in (v["trace"] or [])[-60:]:
        print("   ", str(l)[:300])
    print("VIOLATION property=%s replay=%s" % (a.id, rp))

def run(a, work, t0):
    try:
        hb, opts = build(a.id, work)
    except BuildError as e:
        print("ERROR: the harness of %s does not build against this tree:\n%s" % (a.id, e))
        return 2
    tb = time.time() - t0
    tix = 1 if a.tier == "thorough" else 0
    if a.replay:
        v = json.load(open(a.replay))
        p = harness(hb, ["-tier", a.tier, "-scratch", mkscratch(work, "s-replay"), "-replay", spec(v, work)], work, 0)
        o, e = p.communicate()
        print(o + e)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return p.returncode
    n = int(opts.get("shards", ["8", "8"])[tix])
    seconds = a.seconds or float(opts.get("seconds", ["240", "3000"])[tix])
    kn = known(a.id)
    keys = ",".join(k["key"] for k in kn)
    def launch(i, extra=()):
        s = mkscratch(work, "s%d%s" % (i, "x" if extra else ""))
        args = ["-tier", a.tier, "-shard", str(i), "-n", str(n), "-out", os.path.join(s, "out.json"), "-scratch", s, "-known", keys, "-seconds", str(seconds), "-fps", os.path.join(s, "fps")]
        if a.only:
            args += ["-only", a.only]
        return harness(hb, args + list(extra), s, 0), s
    procs = [launch(i) for i in range(n)]
    import threading
    outs = [None] * n
    def wait(i):
        try:
            outs[i] = procs[i][0].communicate(timeout=seconds + 200)
        except subprocess.TimeoutExpired:
            procs[i][0].kill()
            outs[i] = procs[i][0].communicate()
    th = [threading.Thread(target=wait, args=(i,)) for i in range(n)]
    for t in th: t.start()
    # once a shard has reported a violation the others get a little longer, then are stopped
    stopped, found, unread = set(), 0, set(range(n))
    while any(t.is_alive() for t in th):
        time.sleep(0.05)
        for i in list(unread):
            if not th[i].is_alive():
                unread.discard(i)
                try:
                    vs = json.load(open(os.path.join(procs[i][1], "out.json")))["violations"] or []
                except Exception:
                    vs = []
                if any(v["key"] not in ("hang", "harness") and v.get("repro", 0) == 5 for v in vs):
                    found = found or time.time()
        if found and time.time() - found > 3:
            for i in unread:
                stopped.add(i)
                procs[i][0].kill()
            break
    for t in th: t.join()
    reps, viol, errors, fps = [], [], [], []
    for i, (p, s) in enumerate(procs):
        o = os.path.join(s, "out.json")
        try:
            rep = json.load(open(o))
        except Exception:
            rep = None
        if rep is not None and p.returncode in (0, 7):
            reps.append(rep)
            viol += rep["violations"] or []
            if os.path.exists(os.path.join(s, "fps")):
                fps.append(os.path.join(s, "fps"))
            continue
        if i in stopped:
            continue
        # the shard died: run it again with a journal of the execution under way
        msg = (outs[i][1] or "")[:3000]
        if p.returncode == -9:
            errors.append("shard %d was killed" % i)
            continue
        q, s2 = launch(i, ("-journal", os.path.join(s + "x", "journal")))
        try:
            oo, ee = q.communicate(timeout=seconds + 300)
        except subprocess.TimeoutExpired:
            q.kill(); oo, ee = q.communicate()
        j = os.path.join(s2, "journal")
        if q.returncode not in (0, 7, -9) and os.path.exists(j):
            try:
                jj = json.load(open(j))
            except Exception:
                jj = {"scenario": "?", "choice": []}
            viol.append({"scenario": jj["scenario"], "key": "crash", "msg": "the process crashed, twice:\n" + (ee or msg)[:2500], "choice": jj["choice"], "trace": [], "repro": 1})
        else:
            errors.append("shard %d ended with %s: %s" % (i, p.returncode, msg[:1500]))
    distinct = 0
    if fps:
        r = subprocess.run([hb, "-merge"] + fps, capture_output=True, text=True)
        distinct = int(r.stdout.strip() or 0)
    # hangs must repeat
    vv = []
    for v in viol:
        if v["key"] == "hang":
            p = harness(hb, ["-tier", a.tier, "-scratch", mkscratch(work, "hang"), "-replay", spec(v, work)], work, 0)
            try:
                p.communicate(timeout=60)
                errors.append("a hang did not repeat: %s" % v)
                continue
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
        elif v["key"] == "harness":
            errors.append("harness: " + v["msg"]); continue
        vv.append(v)
    viol = vv
    # evidence
    sc = {}
    for r in reps:
        for name, s in r["scenarios"].items():
            t = sc.setdefault(name, dict(executions=0, nodes=0, transitions=0, sched_points=0, max_depth=0, pruned=0, complete=True, bound=s["bound"], bound_cut=0, divergences=0, outcomes=0, seconds=0.0))
            t["executions"] += s["execs"]; t["nodes"] += s["nodes"]; t["transitions"] += s["transitions"]; t["sched_points"] += s["points"]
            t["max_depth"] = max(t["max_depth"], s["max_depth"]); t["pruned"] += s["pruned"]; t["bound_cut"] += s["bound_cut"]; t["divergences"] += s["divergences"]
            t["outcomes"] = max(t["outcomes"], s["outcomes"]); t["complete"] = t["complete"] and not s["capped"]; t["seconds"] = round(max(t["seconds"], s["Seconds"]), 2)
    hits = {}
    kfound = {}
    for r in reps:
        for k, v in (r.get("known_hits") or {}).items():
            hits[k] = hits.get(k, 0) + v
        for k, v in (r.get("known") or {}).items():
            kfound.setdefault(k, v)
    tot = lambda f: sum(x[f] for x in sc.values())
    samples = []
    for r in reps:
        for s in (r.get("samples") or [])[:2]:
            if len(samples) < 6:
                samples.append({"scenario": s["scenario"], "trace": [str(x)[:160] for x in s["trace"][:30]]})
    nodes_only = tot("nodes")
    cov = {
        "states": distinct + nodes_only,
        "distinct_state_fingerprints": distinct,
        "choice_tree_nodes": nodes_only,
        "transitions": tot("transitions") + tot("sched_points"),
        "traces_validated_against_impl": tot("executions"),
        "samples": samples,
        "exhaustive": bool(sc) and all(x["complete"] for x in sc.values()) and tot("divergences") == 0 and not errors and not viol,
        "scenarios": sc if len(json.dumps(sc)) < 40000 else {k: {f: x[f] for f in ("executions", "nodes", "complete", "bound")} for k, x in list(sc.items())[:200]},
        "explanation": "states = distinct fingerprints of (implementation object graph, oracle state) + distinct nodes of the choice tree (schedules, inputs, faults); transitions = operations of the real code + scheduling steps; every explored execution runs the real code and is compared with the oracle",
    }
    if hits:
        cov["known_finding_hits"] = hits
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}.get(a.id, {})
    except Exception:
        pass
    evd = {"property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": man.get("level", "model_checking"),
           "coverage": cov, "assumptions": [man.get("level_note", "")], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    for k in kn:
        if k["key"] in kfound:
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
        else:
            print("note: known finding not seen on this tree: %s" % k["key"])
    print("%s %s: %d executions, %d states, %d transitions, %d scenarios, complete=%s, build %.1f s, total %.1f s" % (a.id, a.tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], len(sc), cov["exhaustive"], tb, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for k, x in sc.items():
            print("  ", k, json.dumps(x))
    if viol:
        viol.sort(key=lambda v: len(v.get("choice") or []))
        violation(a, viol[0])
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors))
        return 2
    return 0

if __name__ == "__main__":
    main()
