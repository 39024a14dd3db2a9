#!/usr/bin/env python3
"""check.py <property> quick|thorough : deterministic-simulation check of one property.
   check.py --replay FILE [-v]           : rebuild the harness and replay a violation.
   check.py --setup                      : verify that the tool chain works (setup_cmd).
Everything is rebuilt from /repo's current working tree into /verif/build/<property>/."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
BASE = ["-g", "-fno-omit-frame-pointer"]
NCPU = max(1, min(8, os.cpu_count() or 1))

# property -> harness, build variants (name, flags), modules
C17, C20 = "-std=c++17", "-std=c++20"
ready0 = "-DCMDR_ENABLE_THREAD_POOL_READY_SIGNAL=0"
ready1 = "-DCMDR_ENABLE_THREAD_POOL_READY_SIGNAL=1"
POOLV = [("c17r1", [C17, ready1]), ("c20r1", [C20, ready1]), ("c17r0", [C17, ready0])]
from props_cfg import PROPS

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def gen_dir():
    g = os.path.join(R, "_build", "generated")
    return g if os.path.exists(os.path.join(g, "cmdr-version.hh")) else os.path.join(V, "gen")

def build(pid, cfg, bdir, only=None):
    """compile the runtime and every variant of the harness in parallel; returns {variant: binary}"""
    os.makedirs(bdir, exist_ok=True)
    inc = ["-I" + gen_dir(), "-I" + os.path.join(R, "libs/cmdr11/include"), "-I" + os.path.join(R, "addons"), "-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "harness")]
    jobs = []
    rt = ["rt", "main"] + (["simio"] if cfg.get("io") else [])
    for m in rt:
        o = os.path.join(bdir, m + ".o")
        jobs.append((o, ["g++", C17, "-O2", "-fno-builtin", "-fno-stack-protector", "-fno-threadsafe-statics", "-U_FORTIFY_SOURCE"] + BASE + ["-I" + os.path.join(V, "sim"), "-c", os.path.join(V, "sim", m + ".cc"), "-o", o]))
    bins = {}
    vs = [v for v in cfg["variants"] if only is None or v[0] == only]
    for name, flags in vs:
        o = os.path.join(bdir, name + ".o")
        fl = flags + ["-O1", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-w", "-DENABLE_ASSERTS=1", "-DCMDR_ENABLE_ASSERTIONS=1", "-DCMDR_ENABLE_PRECONDITION_CHECKS=1", '-DVARIANT="%s"' % name]
        jobs.append((o, ["g++"] + fl + BASE + cfg.get("flags", []) + inc + ["-c", os.path.join(V, "harness", cfg["src"]), "-o", o]))
    procs, errs = [], []
    for o, cmd in jobs:
        log = open(o + ".log", "w")
        procs.append((o, cmd, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)))
    for o, cmd, p in procs:
        if p.wait() != 0:
            errs.append(os.path.basename(o) + "\n" + open(o + ".log").read()[:1500])
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs)); sys.exit(2)
    for name, flags in vs:
        b = os.path.join(bdir, name)
        cmd = ["g++", "-no-pie", "-rdynamic", os.path.join(bdir, name + ".o")] + [os.path.join(bdir, m + ".o") for m in rt] + ["-o", b] + cfg.get("libs", []) + ["-lpthread", "-ldl"]
        r = run(cmd)
        if r.returncode:
            print("LINK FAILED\n" + r.stdout[-4000:]); sys.exit(2)
        bins[name] = b
    return bins

def symbolise(binary, text):
    addrs = sorted(set(re.findall(r"@([0-9a-f]{5,7})\b", text)))
    if not addrs: return text
    r = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", binary] + ["%x" % (int(a, 16) - 1) for a in addrs], stdout=subprocess.PIPE, text=True)
    l = r.stdout.splitlines()
    m = {}
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(l):
            fn = l[2 * i]
            while True:
                g = re.sub(r"<[^<>]*>", "", fn)
                if g == fn: break
                fn = g
            fn = fn[:90]
            m[a] = fn + " " + l[2 * i + 1].split(" ")[0]
    return re.sub(r"@([0-9a-f]{5,7})\b", lambda x: "[" + m.get(x.group(1), x.group(0)) + "]", text)

def known(pid):
    res = {}
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid: res[m.group(2)] = m.group(3).strip()
    return res

def scratch_dir(bdir):
    d = os.path.join(bdir, "scratch")
    os.makedirs(d, exist_ok=True)
    return d

def merge(dst, src):
    for k, v in src.items(): dst[k] = dst.get(k, 0) + v

def check(pid, tier):
    cfg = PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bdir = os.path.join(V, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    bins = build(pid, cfg, bdir)
    tb = time.time()
    secs = cfg.get("thorough", 600) if tier == "thorough" else cfg.get("quick", 30)
    secs = float(os.environ.get("VERIF_SECONDS", secs))
    names = list(bins)
    work = []
    nw = max(NCPU, len(names))
    for w in range(nw):
        n = names[w % len(names)]
        out = os.path.join(bdir, "out.%d" % w)
        cmd = [bins[n], "--run", "--start", str((seed << 32) + 1 + w), "--stride", str(nw), "--ms", str(int(secs * 1000)), "--out", out,
               "--min-ms", "25000", "--scratch", os.path.join(scratch_dir(bdir), "w%d" % w), "--cpu", str(w % NCPU)]
        os.makedirs(os.path.join(scratch_dir(bdir), "w%d" % w), exist_ok=True)
        work.append(dict(name=n, out=out, p=subprocess.Popen(cmd, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT), rc=None))
    end = time.time() + secs + 120
    first = None
    while any(w["rc"] is None for w in work):
        for w in work:
            if w["rc"] is None:
                w["rc"] = w["p"].poll()
                if w["rc"] is not None and w["rc"] != 0 and first is None: first = w
        if first is not None and first["rc"] == 1:
            for w in work:
                if w["rc"] is None: w["p"].kill(); w["p"].wait(); w["rc"] = -9
            break
        if time.time() > end:
            for w in work:
                if w["rc"] is None: w["p"].kill(); w["p"].wait(); w["rc"] = -99
        time.sleep(0.05)
    tot = dict(runs=0, nontrivial=0, faulty_runs=0, steps=0, plain=0, switches=0, sim_ns=0, det_checked=0, histories=0)
    faults, covers, scen, hashes = {}, {}, {}, set()
    maxthr, wall_ms = 0, 0
    viols, errors = [], []
    for i, w in enumerate(work):
        try: d = json.load(open(w["out"]))
        except Exception:
            if w["rc"] != -9: errors.append("worker %d (%s) rc=%s left no result: %s" % (i, w["name"], w["rc"], open(w["out"] + ".log").read()[-500:]))
            continue
        for k in tot: tot[k] += d.get(k, 0)
        maxthr = max(maxthr, d["max_threads"]); wall_ms = max(wall_ms, d["wall_ms"])
        merge(faults, d["faults"]); merge(covers, d["covers"])
        merge(scen, {w["name"] + ":" + k: v for k, v in d["scenarios"].items()})
        try:
            hb = open(w["out"] + ".hashes", "rb").read()
            vb = w["name"].encode()
            for k in range(0, len(hb), 8): hashes.add(vb + hb[k:k + 8])
        except OSError: pass
        if d.get("nondeterminism"): errors.append("worker %d (%s) NONDETERMINISM %s seed %s" % (i, w["name"], d["nondeterminism"], d.get("nd_seed")))
        if d.get("simerr"): errors.append("worker %d (%s) %s" % (i, w["name"], json.dumps(d["simerr"])))
        if d.get("violation") and d["det_ok"]: viols.append((w, d["violation"]))
    samples = []
    for n in names[:3]:
        for s in range(2):
            sd = (seed << 32) + 1 + names.index(n) + s * nw * 7
            r = run([bins[n], "--one", str(sd), "--scratch", os.path.join(scratch_dir(bdir), "w0")])
            samples.append({"variant": n, "seed": sd, "execution": r.stdout.splitlines()[:1], "history": r.stdout.split("--- history\n")[-1].splitlines()[:25]})
    code, report = 0, None
    kn = known(pid)
    if viols:
        for w, v in viols:
            # must reproduce in a fresh process
            r = run([bins[w["name"]], "--replay", v["replay"], "--scratch", os.path.join(scratch_dir(bdir), "w0")])
            if r.returncode == 1:
                os.makedirs(os.path.join(V, "replays"), exist_ok=True)
                rp = os.path.join(V, "replays", "%s-%s-%d.replay" % (pid, w["name"], v["seed"]))
                body = open(v["replay"]).read()
                open(rp, "w").write("property %s\nvariant %s\n" % (pid, w["name"]) + body)
                report = (w, v, rp, symbolise(bins[w["name"]], v["msg"]), body.split("\nhistory\n")[-1])
                code = 1
                break
            errors.append("violation of %s did not replay exactly (rc %d): %s" % (w["name"], r.returncode, v["msg"][:300]))
    for k in covers:
        if k.startswith("known:") and k[6:] not in kn: errors.append("unlisted known key " + k)
    if code == 0 and errors: code = 2
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if code == 1 else 0,
          "assumptions": cfg["assumptions"],
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": len(hashes), "rule": "one evaluation = one seeded simulated execution (forked process) of a generated workload; distinct = distinct hash of (scheduling decisions, injected faults, recorded history) within a build variant; non-trivial = " + cfg["nontrivial"],
              "samples": samples,
              "runs_per_hour": int(tot["runs"] * 3600 / max(0.001, wall_ms / 1000)), "wall_s_exploring": round(wall_ms / 1000, 2), "build_s": round(tb - t0, 2),
              "nontrivial_runs": tot["nontrivial"], "runs_with_faults": tot["faulty_runs"], "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
              "scheduling_points": tot["steps"], "instrumented_accesses": tot["plain"], "context_switches": tot["switches"], "max_threads": maxthr,
              "faults_injected": faults, "rare_conditions_reached": covers, "runs_per_scenario": scen, "determinism_audits": tot["det_checked"],
              "real_components": cfg["real"], "stubbed_components": cfg["stubs"]}}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d runs (%d non-trivial, %d distinct), %d steps, faults %s, %.1fs (build %.1fs)" % (pid, tier, seed, tot["runs"], tot["nontrivial"], len(hashes), tot["steps"], json.dumps(faults), wall, tb - t0))
    if covers: print("reached: " + json.dumps(covers))
    if code == 0:
        for c in cfg.get("must_cover", []):
            if not covers.get(c): print("note: rare condition not reached: " + c)
        for k, what in kn.items(): print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for e in errors: print("ERROR " + e)
    if report:
        w, v, rp, msg, hist = report
        print("--- %s in scenario %s (build variant %s), seed %d; %d decisions after minimising %d" % (v["kind"], v["scenario"], w["name"], v["seed"], v["decisions"], v["original_decisions"]))
        print(msg)
        print("history:\n" + "\n".join(hist.splitlines()[-40:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if code != 2: shutil.rmtree(os.path.join(bdir, "scratch"), ignore_errors=True)
    return code

def replay(path, verbose):
    txt = open(path).read()
    pid = re.search(r"^property (\S+)", txt).group(1)
    var = re.search(r"^variant (\S+)", txt, re.M).group(1)
    bdir = os.path.join(V, "build", "replay-" + pid)
    shutil.rmtree(bdir, ignore_errors=True)
    bins = build(pid, PROPS[pid], bdir, only=var)
    r = run([bins[var], "--replay", path, "--scratch", scratch_dir(bdir)] + (["-v"] if verbose else []))
    print(symbolise(bins[var], r.stdout))
    print({1: "REPRODUCED exactly", 3: "reproduced, by a different execution (the code has changed since)", 0: "NOT reproduced"}.get(r.returncode, "ERROR"))
    return r.returncode

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        bdir = os.path.join(V, "build", "setup")
        os.makedirs(bdir, exist_ok=True)
        for m in ("rt", "main", "simio"):
            if os.path.exists(os.path.join(V, "sim", m + ".cc")):
                r = run(["g++", C17, "-O2", "-fno-builtin", "-I" + os.path.join(V, "sim"), "-c", os.path.join(V, "sim", m + ".cc"), "-o", os.path.join(bdir, m + ".o")])
                if r.returncode: print(r.stdout); sys.exit(1)
        print("ok"); sys.exit(0)
    if a and a[0] == "--replay": sys.exit(replay(a[1], "-v" in a))
    if len(a) < 1 or a[0] not in PROPS: print(__doc__, "known:", " ".join(PROPS)); sys.exit(2)
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
