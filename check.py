#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only NAME] [--replay FILE]

Builds the library from /repo's working tree and the harness of property ID, explores, writes
evidence/ID.json. Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer."""
import concurrent.futures, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LBDD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-w", "-g1"]
VARIANTS = {
    # guard on: allocation blocks of 16 nodes / 4 pages, so that short histories cross their boundaries
    "small": ["-O2", "-DLBDD_VERIF_SMALL_POOLS=16"],
    # guard off: the shipped constants
    "full": ["-O2"],
    # guard on, blocks of 3 nodes, each allocation lies below the one before: nodes lie below the sinks
    "down": ["-O2", "-DLBDD_VERIF_SMALL_POOLS=3", "-DMC_DOWN"],
    # guard on, released memory is handed out again at once with what it held
    "reuse": ["-O2", "-DLBDD_VERIF_SMALL_POOLS=16", "-DMC_REUSE"],
    # guard on, every executed basic block is reported to the harness (cost)
    "cost": ["-O1", "-DLBDD_VERIF_SMALL_POOLS=16", "-fsanitize-coverage=trace-pc"],
    # guard on, address sanitizer, the sanitizer's allocator instead of the explorer's arena
    "asan": ["-O1", "-DLBDD_VERIF_SMALL_POOLS=16", "-DMC_NO_ARENA", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
# property -> list of (harness, variant)
CHECKS = {}
for line in open(os.path.join(VERIF, "checks.txt")):
    line = line.split("#")[0].split()
    if line:
        CHECKS[line[0]] = [tuple(x.split(":")) for x in line[1:]]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "include"), H):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".hxx", ".inl", ".ipp")):
                    h.update(f.encode()); h.update(read(os.path.join(root, f)))
    return h.hexdigest()


def compile_one(src, flags, hdr):
    cmd = ["g++"] + COMMON + flags + ["-include", os.path.join(H, "rng_shim.h"), "-I" + os.path.join(REPO, "include"), "-I" + H]
    key = hashlib.sha256(json.dumps([cmd, os.path.basename(src), hdr]).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, obj)
    return obj


def build(runs):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hdr = headers()
    lib = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith((".cpp", ".cc", ".cxx")))
    lib.sort(key=lambda f: -os.path.getsize(f))
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for v in {v for _, v in runs}:
            for src in lib + [os.path.join(H, "mc.cpp")] + [os.path.join(H, h + ".cpp") for h, vv in runs if vv == v]:
                jobs[src, v] = ex.submit(compile_one, src, VARIANTS[v], hdr)
        objs = {k: j.result() for k, j in jobs.items()}
    bins = []
    for h, v in runs:
        os.makedirs(os.path.join(BUILD, v), exist_ok=True)
        o = [objs[s, v] for s in lib] + [objs[os.path.join(H, "mc.cpp"), v], objs[os.path.join(H, h + ".cpp"), v]]
        exe = os.path.join(BUILD, v, h)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + [f for f in VARIANTS[v] if f.startswith("-fsanitize=")] + ["-pthread"] + o + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("linking %s failed:\n%s" % (h, r.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, exe)
        bins.append(exe)
    return bins


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); only = None; replay = None; prop = None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--only": only = a.pop(0)
        elif x == "--replay": replay = a.pop(0)
        else: prop = x
    if prop == "--build-all":
        return 0
    runs = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    try:
        bins = build(runs)
    except RuntimeError as e:
        print("ERROR: cannot build: %s" % e)
        return 2
    t_build = time.time() - t0
    env = dict(os.environ, VERIF_SEED=str(seed), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=0:quarantine_size_mb=16")
    if replay:
        rc = 0
        head = open(replay).read()
        for (h, v), b in zip(runs, bins):
            if "harness %s:%s" % (h, v) in head:
                rc = subprocess.run([b, "--tier", tier, "--replay", replay], env=env).returncode
        return rc
    scen = []; total = dict(executions=0, steps=0, nontrivial=0, states=0); complete = True; violation = None
    for (h, v), b in zip(runs, bins):
        out = os.path.join(BUILD, v, "%s.%s.json" % (h, tier)); rep = os.path.join(VERIF, "replays", "%s.%s.%s.txt" % (prop, h, v))
        for p in (out, rep):
            if os.path.exists(p): os.remove(p)
        for attempt in range(2):
            cmd = [b, "--property", prop, "--tier", tier, "--out", out, "--replay-out", rep] + (["--only", only] if only else [])
            try:
                rc = subprocess.run(cmd, env=env, timeout=None if tier == "thorough" else max(60, 840 - (time.time() - t0))).returncode
            except subprocess.TimeoutExpired:
                print("ERROR: %s:%s ran out of time" % (h, v)); return 2
            if rc != 3: break                       # 3: a failure that did not reproduce; try once more
        if rc not in (0, 1):
            print("ERROR: harness %s:%s ended with %d" % (h, v, rc)); return 2
        r = json.load(open(out))
        for s in r["scenarios"]:
            scen.append(dict(s, harness=h, variant=v))
        for k in total: total[k] += r[k]
        complete = complete and r["complete"]
        if rc == 1:
            with open(rep, "a") as f:
                f.write("# harness %s:%s  (python3 check.py %s --replay <this file>)\n" % (h, v, prop))
            violation = (rep, r["message"]); break
    samples = [{"scenario": s["name"], "trace": t} for s in scen for t in s["samples"][:1]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"], "transitions": total["steps"], "traces_validated_against_impl": total["executions"],
            "exhaustive": complete and not only, "samples": samples,
            "explanation": "Stateless model checking of the compiled library: every execution is a run of the real code, compared step by step with the reference model in the harness. traces_validated_against_impl counts executions, transitions the library operations performed in them, states the distinct observed (abstract) states.",
            "scenarios": [{k: s[k] for k in ("name", "harness", "variant", "bound", "units", "units_done", "executions", "steps", "nontrivial")} for s in scen],
            "build_s": round(t_build, 1),
        },
        "assumptions": ["the reference model (harness/kit.h and the harness of this property) states the property correctly", "bounds as listed per scenario", "hash keys are drawn from the explorer instead of std::mt19937 (rng_shim.h)"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        print("  " + violation[1].strip()[:600])
        return 1
    print("%s held: %d executions, %d operations, %d states, %.1f s (build %.1f s)" % (prop, total["executions"], total["steps"], total["states"], time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
