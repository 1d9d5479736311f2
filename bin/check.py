#!/usr/bin/env python3
"""check.py PROPERTY TIER: build the property's harness from /repo's working tree, run all its cases, judge.

Exit 0: the property held on everything explored (listed known findings are printed).
Exit 1: a line "VIOLATION property=<id> replay=<path>" per unlisted violation.
Exit 2: the check itself could not run or observed nothing (no verdict).
"""
import concurrent.futures, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import builds

JOBS = int(os.environ.get("VH_JOBS", str(os.cpu_count() or 8)))

def err(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)

def compile_all(prop, work, tier):
    """Compile every translation unit in parallel, then link. Returns [(build, exe)]."""
    jobs = []; exes = []
    for bd in builds.BUILDS[prop]:
        if bd["tier"] == "thorough" and tier != "thorough": continue
        d = os.path.join(work, bd["name"]); os.makedirs(d)
        objs = []
        srcs = [os.path.join(VERIF, "harness", s) for s in bd["src"]] + [os.path.join(REPO, s) for s in bd["repo"]]
        for i, s in enumerate(srcs):
            o = os.path.join(d, "%d.o" % i); objs.append(o)
            flags = [f.replace("{repo}", REPO) for f in bd["flags"]]
            jobs.append([bd["cc"]] + flags + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o])
        exes.append((bd, objs, os.path.join(d, bd["name"])))
    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return (cmd, r)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in ex.map(run, jobs):
            if r.returncode != 0:
                print(" ".join(cmd)); print("\n".join([l for l in r.stdout.split("\n") if "error" in l][:12])); print(r.stdout[:5000])
                err("harness does not compile against the current tree")
    out = []
    for bd, objs, exe in exes:
        san = [f for f in bd["flags"] if f.startswith("-fsanitize") or f == "-pthread"]
        cmd = [bd["cc"]] + san + objs + ["-o", exe] + bd["link"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            print(" ".join(cmd)); print(r.stdout[-6000:])
            err("harness does not link against the current tree")
        out.append((bd, exe))
    return out

ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=4096:hard_rss_limit_mb=6000:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=78",
}

def classify(text, rc):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+(?: on \w+)?)", text)
    if m: return "asan:" + m.group(1).replace(" ", "-")
    if "AddressSanitizer:DEADLYSIGNAL" in text or "DEADLYSIGNAL" in text: return "asan:deadly-signal"
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        k = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)); k = re.sub(r"[^A-Za-z]+", "-", k)[:60]
        return "ubsan:" + k
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ()-]+?) \(pid", text)
    if m: return "tsan:" + m.group(1).replace(" ", "-")
    if "LeakSanitizer" in text: return "leak"
    m = re.search(r"Assertion `(.*?)' failed", text)
    if m: return "assert:" + re.sub(r"\s+", "", m.group(1))[:60]
    if "terminate called" in text:
        m = re.search(r"instance of '([^']+)'", text)
        return "terminate:" + (m.group(1) if m else "?")
    if rc < 0: return "signal:%d" % -rc
    return "exit:%d" % rc

def run_one(job, timeout):
    exe, bd, case, shard, shards, seed, tier, work, extra = job
    tag = "%s.%s.%d" % (bd["name"], case, shard)
    d = os.path.join(work, "run", tag)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, "tmp"))
    out = os.path.join(d, "out.json")
    cmd = [exe, "--case", case, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (shard, shards),
           "--out", out, "--tmp", os.path.join(d, "tmp")] + list(extra)
    env = dict(os.environ); env.update(ENV_SAN); env["LC_ALL"] = "C"; env["TZ"] = "UTC"
    t0 = time.time()
    log = os.path.join(d, "log")
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True, stdin=subprocess.DEVNULL)
        hung = False
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            rc = p.wait()
        if not hung:
            try: os.killpg(p.pid, signal.SIGKILL)   # anything left behind
            except (ProcessLookupError, PermissionError): pass
    with open(log, "rb") as lf:
        data = lf.read(); text = (data[:200000] + data[-20000:] if len(data) > 220000 else data).decode("utf-8", "replace")
    st = {}
    try:
        with open(out + ".st", "rb") as f: raw = f.read()
        st["iter"] = struct.unpack("Q", raw[:8])[0]; st["note"] = raw[16:].split(b"\0")[0].decode("utf-8", "replace")
    except Exception: pass
    res = {"job": job, "rc": rc, "hung": hung, "text": text, "st": st, "t": time.time() - t0, "cmd": cmd, "json": None, "dst": b""}
    if os.path.exists(out):
        try:
            res["json"] = json.load(open(out))
            if os.path.exists(out + ".dst"): res["dst"] = open(out + ".dst", "rb").read()
        except Exception as e: res["text"] += "\nbad json: %s" % e
    if not os.environ.get("VH_KEEP"): shutil.rmtree(d, ignore_errors=True)
    return res

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = [a for a in sys.argv[3:] if not a.startswith("-")]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in builds.BUILDS: err("unknown property " + prop)
    man = {p["id"]: p for p in map(json.loads, open(os.path.join(VERIF, "properties.jsonl")))}
    import importlib
    try: level = {c["property"]: c["level"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}.get(prop, "exploration")
    except Exception: level = "exploration"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        rc = go(prop, tier, seed, only, work, level, man, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def go(prop, tier, seed, only, work, level, man, t0):
    evdir = os.environ.get("VH_EV", os.path.join(VERIF, "evidence"))
    evfile = os.path.join(evdir, prop + ".json")
    os.makedirs(evdir, exist_ok=True)
    replay_dir = os.path.join(evdir, "replay"); os.makedirs(replay_dir, exist_ok=True)
    for f in os.listdir(replay_dir):
        if f.startswith(prop + "-"): os.unlink(os.path.join(replay_dir, f))
    exes = compile_all(prop, work, tier)
    build_s = time.time() - t0
    jobs = []
    for bd, exe in exes:
        env = dict(os.environ); env.update(ENV_SAN)
        r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, env=env)
        if r.returncode != 0: 
            print(r.stdout[-3000:])
            # static initialisation of the code under test failed
            jobs.append((exe, bd, "startup", 0, 1, seed, tier, work, ()))
            continue
        for line in r.stdout.split("\n"):
            m = re.match(r"^(\w+) (\d+)$", line)
            if not m: continue
            case, shards = m.group(1), int(m.group(2))
            if only and not any(o == case or o == bd["name"] for o in only): continue
            for s in range(shards): jobs.append((exe, bd, case, s, shards, seed, tier, work, ()))
    if not jobs: err("no cases")
    timeout = 120 if tier == "quick" else 3600
    retry = 200 if tier == "quick" else 3600
    results = []; hung = []; broken = []
    # stop starting work early when a lot has already failed: a verdict is already certain
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(run_one, j, timeout) for j in jobs]
        nh = 0
        for f in concurrent.futures.as_completed(futs):
            try: res = f.result()
            except concurrent.futures.CancelledError: continue
            (hung if res["hung"] else results).append(res)
            if res["hung"]: nh += 1
            if nh >= 6:
                for g in futs: g.cancel()
    found = []   # (key, message, result)
    for h in hung[:2]:
        if found: break
        r2 = run_one(h["job"], retry)
        if r2["hung"]:
            where = "iteration %s %s" % (r2["st"].get("iter"), r2["st"].get("note", ""))
            found.append(("hang:%s" % h["job"][2], "no end within %d s, twice; %s" % (retry, where), r2))
        else: results.append(r2)
    inconclusive = []
    if len(hung) > 2 and not found: inconclusive.append("%d cases timed out" % len(hung))
    evals = 0; dst = set(); counters = {}; samples = []; cases_run = {}
    for r in results:
        j = r["json"]; case = r["job"][2]
        if j is not None:
            evals += j["evaluations"]
            for k, v in j["counters"].items(): counters[k] = counters.get(k, 0) + v
            for i in range(0, len(r["dst"]), 8): dst.add(r["dst"][i:i+8])
            c = cases_run.setdefault(r["job"][1]["name"] + ":" + case, {"evaluations": 0, "wall_s": 0})
            c["evaluations"] += j["evaluations"]; c["wall_s"] = round(c["wall_s"] + r["t"], 2)
            samples += [{"case": case, "what": s} for s in j["samples"]]
            for v in j["violations"]: found.append(("%s/%s" % (case, v["key"]), v["msg"], r))
            if j["status"] == "harness-error": inconclusive.append("%s: %s" % (case, j["detail"])); continue
            if r["rc"] in (0, 1) and not (r["rc"] == 1 and not j["violations"]): continue
        # died: a sanitizer report, an abort, a signal, or a leak report at exit
        kind = classify(r["text"], r["rc"])
        if j is None and r["rc"] == 3: inconclusive.append("%s: exit 3" % case); continue
        if r["rc"] == -9: inconclusive.append("%s was killed (memory?)" % case); continue
        where = "iteration %s %s" % (r["st"].get("iter"), r["st"].get("note", ""))
        found.append(("crash:%s:%s" % (case, kind), "%s at %s" % (kind, where), r))
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    listed = {(k["property"], k["key"]): k for k in known["findings"]}
    viol = 0; seen = set(); shown = set()
    for key, msg, r in sorted(found, key=lambda x: x[0]):
        if key in seen: continue
        seen.add(key)
        if (prop, key) in listed:
            shown.add(key)
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, listed[(prop, key)]["what"], key)); continue
        viol += 1
        if viol > 10: continue
        path = os.path.join(replay_dir, "%s-%d.txt" % (prop, viol))
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\nwhat: %s\ncase: %s shard %d/%d seed %d tier %s build %s\n" % (prop, key, msg, r["job"][2], r["job"][3], r["job"][4], seed, tier, r["job"][1]["name"]))
            it = r["st"].get("iter")
            f.write("replay: VERIF_SEED=%d python3 bin/replay.py %s %s %s %s %s\n" % (seed, prop, tier, r["job"][1]["name"], r["job"][2], "%d/%d" % (r["job"][3], r["job"][4])))
            f.write("last iteration: %s\n\n--- output ---\n%s\n" % (it, r["text"][:60000]))
        print("  %s: %s" % (key, msg[:700]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    cov = {"evaluations": evals, "distinct_nontrivial": len(dst), "rule": builds.RULES.get(prop, "see DESIGN.md"),
           "samples": samples[:12], "observed": counters, "cases": cases_run, "processes": len(results) + len(hung),
           "known_findings_reproduced": sorted(shown), "inconclusive": inconclusive, "build_s": round(build_s, 1)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": builds.ASSUME.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(evfile, "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs (build %.1fs)" % (prop, tier, seed, evals, len(dst), viol, time.time() - t0, build_s))
    if viol: return 1
    if inconclusive:
        print("inconclusive: " + "; ".join(inconclusive[:5])); return 2
    if evals == 0 or len(dst) == 0:
        print("inconclusive: nothing was observed"); return 2
    return 0

main()
