#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py PROPERTY [quick|thorough]     run a check (seed: VERIF_SEED, tier: argument or VERIF_TIER)
  check.py --replay FILE                 execute a replay file, exit 1 if it violates
  check.py --audit PROPERTY [N]          determinism audit: N seeds, each executed twice by different workers
  check.py --build                       build everything (setup)

It compiles the simulator together with the library sources of /repo's working tree, runs many seeded
simulations on all cores, confirms every violation (same seed again, minimised plan in a fresh process),
writes the replay file and the evidence.
"""
import sys, os, json, time, hashlib, subprocess, re, glob, shutil, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
sys.path.insert(0, os.path.join(VERIF, "driver"))
from props import PROPS, WORLDS

CORES = os.cpu_count() or 8
BASEFLAGS = ["-std=gnu++14", "-fPIC", "-fomit-frame-pointer", "-DNDEBUG", "-msse2", "-mfpmath=sse",
             "-D_FILE_OFFSET_BITS=64", "-DMIE_ATE_USE_GMP", "-w",
             "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/java", "-I" + SIM]
# build variants: flags (last ones win), compiler. Those which are not of ESSENTIAL are left out where they do not compile
VARIANTS = {
    "default": ([], "g++"),
    "snark": (["-DBN_SUPPORT_SNARK"], "g++"),
    "debug": (["-UNDEBUG", "-O0"], "g++"),  # make DBG=on
    "native": (["-O3", "-march=native"], "g++"),  # the flags of common.mk
    "clang": ([], "clang++"),
    "wide": (["-DMIE_ZM_VUINT_BIT_LEN=1024"], "g++"),  # make VUINT_BIT_LEN=1024
    "narrow": (["-DMIE_ZM_VUINT_BIT_LEN=512"], "g++"),
}
ESSENTIAL = ("default", "snark")
LINK = ["-lgmpxx", "-lgmp", "-ldl", "-lpthread", "-Wl,-z,now"]


class HarnessError(Exception):
    pass


def die(msg):
    print("HARNESS-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for pat in ("include/**/*", "src/*", "java/*.hpp"):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    for f in sorted(fs):
        if os.path.isfile(f) and f.endswith((".h", ".hpp", ".cpp")):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()


def file_hash(*fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


_tree = None
_headers = None
dropped_ops = []
dropped_variants = []


def compile_obj(src, flags, uses_repo=True, cxx="g++"):
    """object file of a source, cached by content; returns its path"""
    key = hashlib.sha256((cxx + "\0".join(flags) + src + file_hash(src) + _headers + (_tree if uses_repo else "")).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
    note = obj + ".dropped"
    if os.path.exists(obj):
        os.utime(obj)
        if os.path.exists(note):
            dropped_ops.extend(open(note).read().split("\n"))
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cur = src
    drop = []
    for attempt in range(4):
        p = subprocess.run([cxx] + flags + ["-c", cur, "-o", tmp], capture_output=True, text=True)
        if p.returncode == 0:
            break
        # an operation of the table which this tree does not offer (any more) is left out, not an alarm
        lines = open(cur).read().split("\n")
        bad = set()
        for m in re.finditer(r"^" + re.escape(cur) + r":(\d+):", p.stderr, re.M):
            i = int(m.group(1)) - 1
            if lines[i].startswith(("OP(", "OPX(")):
                bad.add(i)
        if not bad or attempt == 3:
            raise HarnessError("cannot compile %s:\n%s" % (src, p.stderr[:3000]))
        for i in bad:
            drop.append(os.path.basename(src) + ": " + lines[i][:60])
            lines[i] = "//" + lines[i]
        cur = os.path.join(BUILD, "cut%d-" % os.getpid() + os.path.basename(src))
        open(cur, "w").write("\n".join(lines))
    if cur != src:
        os.remove(cur)
    if drop:
        open(note, "w").write("\n".join(drop))
        dropped_ops.extend(drop)
    os.rename(tmp, obj)
    return obj


def clean_cache():
    fs = [f for f in glob.glob(BUILD + "/*") if os.path.isfile(f)]
    fs.sort(key=os.path.getmtime, reverse=True)
    total = 0
    for f in fs:
        total += os.path.getsize(f)
        if total > 1500 << 20:
            try:
                os.remove(f)
            except OSError:
                pass


def build(jobs):
    """jobs: list of (world, variant); returns {(world, variant): binary}"""
    global _tree, _headers
    _tree = tree_hash()
    _headers = file_hash(*sorted(glob.glob(SIM + "/*.h")))
    clean_cache()
    need = {}
    for world, variant in jobs:
        w = WORLDS[world]
        vf, cxx = VARIANTS[variant]
        fl = BASEFLAGS + w.get("flags", [])
        nosan = [x for x in fl if not x.startswith("-fsanitize")]
        parts = []
        # core and model do not depend on the variant
        for f in ("core", "model"):
            parts.append((SIM + "/" + f + ".cpp", tuple(BASEFLAGS + ["-O2"]), False, "g++"))
        parts.append((SIM + "/bridge.cpp", tuple(fl + ["-O2"] + vf), True, cxx))
        for f in ("zm", "zm2"):
            parts.append((REPO + "/src/" + f + ".cpp", tuple(fl + ["-O3"] + vf), True, cxx))
        for s in w["src"]:
            # the simulated scheduler is not a part of what it schedules
            parts.append((SIM + "/" + s, tuple((nosan if s == "simthr.cpp" else fl) + ["-O2"] + vf), True, cxx))
        need[(world, variant)] = parts
    todo = set(p for parts in need.values() for p in parts)
    order = sorted(todo, key=lambda x: (0 if os.path.basename(x[0]).startswith("w_") else 1, x))
    objs = {}
    with ThreadPoolExecutor(CORES) as ex:
        fut = {p: ex.submit(compile_obj, p[0], list(p[1]), p[2], p[3]) for p in order}
        for p, f in fut.items():
            try:
                objs[p] = f.result()
            except HarnessError as e:
                objs[p] = e
    out = {}
    for k, parts in need.items():
        w = WORLDS[k[0]]
        ol = [objs[p] for p in parts]
        bad = [o for o in ol if isinstance(o, HarnessError)]
        if bad and k[1] in ESSENTIAL:
            raise bad[0]
        if bad:
            dropped_variants.append("%s/%s: %s" % (k[0], k[1], str(bad[0])[:300]))
            continue
        key = hashlib.sha256(("\0".join(ol) + "\0".join(w.get("link", []))).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "sim-%s-%s-%s" % (k[0], k[1], key))
        if not os.path.exists(exe):
            p = subprocess.run(["g++", "-o", exe + ".tmp"] + ol + w.get("link", []) + LINK, capture_output=True, text=True)
            if p.returncode:
                raise HarnessError("cannot link: " + p.stderr[:2000])
            os.rename(exe + ".tmp", exe)
        else:
            os.utime(exe)
        out[k] = exe
    return out


def run(exe, args, timeout=None, env=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C"}
    return subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=e)


def one(exe, args):
    p = run(exe, args, timeout=400)
    try:
        return json.loads(p.stdout.strip().split("\n")[-1])
    except Exception:
        raise HarnessError("bad answer of the simulator: %s %s" % (p.stdout[-300:], p.stderr[-300:]))


def confirm(exe, prop, world, variant, tier, seed, first, budget):
    """the gate every alarm passes: same seed again, then the minimised plan in fresh processes"""
    again = one(exe, ["seed", "--world", world, "--seed", str(seed), "--tier", tier])
    if again["cls"] != first["cls"]:
        again2 = one(exe, ["seed", "--world", world, "--seed", str(seed), "--tier", tier])
        if again2["cls"] != first["cls"]:
            return None, "seed %d: %s was not reproduced (%s, %s)" % (seed, first["cls"], again["cls"], again2["cls"])
    if first["cls"] in ("harness-error", "noworld"):
        return None, "seed %d: %s" % (seed, first["msg"])
    plan = run(exe, ["plan", "--world", world, "--seed", str(seed), "--tier", tier]).stdout
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%s-%d.plan" % (prop, world, variant, seed))
    open(path, "w").write(plan)
    best = plan
    if first["cls"] != "hang":
        p = run(exe, ["min", "--plan", path, "--cls", first["cls"], "--budget", str(budget)])
        if p.returncode == 0 and p.stdout.startswith("plan "):
            best = p.stdout
    open(path, "w").write(best)
    r1 = one(exe, ["exec", "--plan", path])
    r2 = one(exe, ["exec", "--plan", path])
    if r1["cls"] != first["cls"] or r2["cls"] != first["cls"]:
        open(path, "w").write(plan)
        r1 = one(exe, ["exec", "--plan", path])
        r2 = one(exe, ["exec", "--plan", path])
        if r1["cls"] != first["cls"] or r2["cls"] != first["cls"]:
            return None, "seed %d: the plan does not reproduce %s" % (seed, first["cls"])
        best = plan
    exact = r1["hash"] == r2["hash"] and r1["msg"] == r2["msg"]
    head = "# property %s\n# variant %s\n# seed %d tier %s\n# violation %s: %s\n# two executions identical: %s\n# replay: python3 driver/check.py --replay %s\n" % (
        prop, variant, seed, tier, r1["cls"], r1["msg"].replace("\n", " ")[:1500], exact, os.path.relpath(path, VERIF))
    open(path, "w").write(head + best)
    return {"path": path, "cls": r1["cls"], "msg": r1["msg"], "seed": seed, "exact": exact}, None


def known_findings():
    r = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> replay=<file under /verif> cls=<class> match=<regex of the message> what=<text>
                m = re.match(r"finding: property=(\S+) replay=(\S+) world=(\S+) variant=(\S+) cls=(\S+) match=(\S+) what=(.*)$", l)
                if m:
                    r.append(dict(zip(("prop", "replay", "world", "variant", "cls", "match", "what"), m.groups())))
    return r


def check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    jobs = P["jobs"]
    budget = float(os.environ.get("SIM_BUDGET", P.get("quick_s", 60) if tier == "quick" else P.get("thorough_s", 900)))
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    exes = build([(w, v) for w, v, n in jobs])
    jobs = [j for j in jobs if (j[0], j[1]) in exes]
    tb = time.time()
    known = [k for k in known_findings() if k["prop"] == prop]
    # workers
    work = []
    total = sum(n for _, _, n in jobs)
    for ji, (w, v, n) in enumerate(jobs):
        k = max(1, round(CORES * n / total))
        for i in range(k):
            work.append((ji, w, v, i, k))
    scale = max(1.0, len(work) / CORES)
    procs = []
    res = [None] * len(work)
    sem = threading.Semaphore(CORES)

    def worker(j):
        ji, w, v, i, k = work[j]
        cov = os.path.join(BUILD, "cov-%d-%d" % (os.getpid(), j))
        base = (seed * 1000003 + ji * 7919) * 1000000 + i
        with sem:
            t = time.time()
            p = run(exes[(w, v)], ["batch", "--world", w, "--start", str(base), "--stride", str(k), "--count", "100000000",
                                   "--budget", "%.2f" % (budget / scale), "--tier", tier, "--covfile", cov, "--maxviol", "2"])
            res[j] = (p.returncode, p.stdout, p.stderr, cov, time.time() - t)

    ths = [threading.Thread(target=worker, args=(j,)) for j in range(len(work))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    runs = nt = dnt = steps = rechecked = 0
    stats = {}
    covers = {}
    samples = []
    viols = []
    errors = []
    perjob = {}
    wall_sim = 0
    for j, (rc, out, err, cov, dt) in enumerate(res):
        ji, w, v, i, k = work[j]
        if rc != 0 or "SUMMARY " not in out:
            errors.append("worker failed (%s): %s %s" % (rc, out[-300:], err[-300:]))
            continue
        for l in out.split("\n"):
            if l.startswith("VIOL "):
                _, s, js = l.split(" ", 2)
                viols.append((w, v, int(s), json.loads(js)))
            elif l.startswith("MISMATCH"):
                errors.append("world %s %s: seed %s is not deterministic" % (w, v, l.split()[1]))
            elif l.startswith("SUMMARY "):
                d = json.loads(l[8:])
                runs += d["runs"]
                nt += d["nontrivial"]
                dnt += d["distinct_nontrivial"]
                steps += d["steps"]
                rechecked += d["rechecked"]
                for kk, n in d["stats"].items():
                    stats[kk] = stats.get(kk, 0) + n
                for s in d["samples"]:
                    if len(samples) < 8:
                        samples.append("%s/%s %s" % (w, v, s))
                pj = perjob.setdefault(w + "/" + v, {"runs": 0, "nontrivial": 0, "steps": 0})
                pj["runs"] += d["runs"]
                pj["nontrivial"] += d["nontrivial"]
                pj["steps"] += d["steps"]
        if os.path.exists(cov):
            import array
            a = array.array("Q")
            a.frombytes(open(cov, "rb").read())
            covers.setdefault(w, set()).update(a)
            os.remove(cov)
    wall_sim = time.time() - tb
    found = []
    knownhit = {}
    for w, v, s, r in viols:
        kf = [k for k in known if k["cls"] == r["cls"] and re.search(k["match"], r["msg"])]
        if kf:
            knownhit[kf[0]["what"]] = 1
            continue
        if len(found) >= 2:
            break
        if any(f["cls"] == r["cls"] for f in found):
            continue
        f, e = confirm(exes[(w, v)], prop, w, v, tier, s, r, 30 if tier == "quick" else 120)
        if f:
            f["world"], f["variant"] = w, v
            found.append(f)
        else:
            errors.append(e)
    for k in known:
        exe = exes.get((k["world"], k["variant"]))
        if exe:
            r = one(exe, ["exec", "--plan", os.path.join(VERIF, k["replay"])])
            if r["cls"] == k["cls"] and re.search(k["match"], r["msg"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                errors.append("known finding is gone: " + k["what"])
    faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")}
    simtime = {k[4:]: n for k, n in sorted(stats.items()) if k.startswith("sim.")}
    other = {k: n for k, n in sorted(stats.items()) if not k.startswith(("fault.", "sim."))}
    hours = max(wall_sim, 0.001) / 3600
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": dnt,
            "rule": P["rule"],
            "samples": samples,
            "nontrivial_runs": nt,
            "runs_per_hour": int(runs / hours),
            "seeds_per_hour": int(runs / hours),
            "simulated_steps": steps,
            "simulated_time": simtime or {"steps": steps},
            "faults_injected": faults,
            "distinct_states": {"measure": P["measure"], "count": sum(len(c) for c in covers.values())},
            "determinism_rechecks": rechecked,
            "counters": other,
            "per_world": perjob,
            "components": {"real": P["real"], "stub": P["stub"]},
            "operations_not_offered_by_this_tree": sorted(set(dropped_ops)),
            "variants_not_built": sorted(set(dropped_variants)),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb - t0, 2),
        "violations": len(found),
    }
    json.dump(evidence, open(ev_path, "w"), indent=1)
    print("%s %s seed=%d: %d runs (%d non-trivial, %d distinct), %d steps, %d states, build %.1fs, total %.1fs; faults %s" % (
        prop, tier, seed, runs, nt, dnt, steps, evidence["coverage"]["distinct_states"]["count"], tb - t0, time.time() - t0, json.dumps(faults)))
    for f in found:
        print("  %s/%s seed %d: %s: %s" % (f["world"], f["variant"], f["seed"], f["cls"], f["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f["path"], VERIF)))
    sys.stdout.flush()
    if found:
        for e in errors:
            print("note: " + str(e)[:500])
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR: " + str(e)[:1500])
        return 2
    if runs == 0 or nt == 0:
        print("HARNESS-ERROR: nothing was explored")
        return 2
    return 0


def replay(path):
    txt = open(path).read()
    world = re.search(r"^plan (\S+)", txt, re.M).group(1)
    m = re.search(r"^# variant (\S+)", txt, re.M)
    variant = m.group(1) if m else "default"
    exe = build([(world, variant)])[(world, variant)]
    r = one(exe, ["exec", "--plan", path])
    print(json.dumps(r))
    return 1 if r["cls"] else 0


def audit(prop, n):
    bad = 0
    P = PROPS[prop]
    exes = build([(w, v) for w, v, _ in P["jobs"]])
    for ji, (w, v, _) in enumerate(P["jobs"]):
        outs = []
        for parts in (1, 5):
            with ThreadPoolExecutor(CORES) as ex:
                per = (n + parts - 1) // parts
                rs = list(ex.map(lambda i: run(exes[(w, v)], ["hashes", "--world", w, "--start", str(900000 + i * per), "--count", str(per)]).stdout, range(parts)))
            outs.append("".join(rs).split("\n")[:n])
        same = outs[0] == outs[1]
        print("audit %s %s/%s: %d seeds, 1 worker against 5 workers: %s" % (prop, w, v, n, "identical" if same else "DIFFERENT"))
        if not same:
            bad = 1
            for a, b in zip(*outs):
                if a != b:
                    print("   ", a, "|", b)
    return bad


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--replay":
            sys.exit(replay(a[1]))
        if a[0] == "--audit":
            sys.exit(audit(a[1], int(a[2]) if len(a) > 2 else 100))
        if a[0] == "--build":
            js = set()
            for p in PROPS.values():
                for w, v, n in p["jobs"]:
                    js.add((w, v))
            build(sorted(js))
            print("built")
            sys.exit(0)
        if a[0] == "--setup":  # nothing is kept between runs: only see that the tools are there
            p = subprocess.run(["g++", "--version"], capture_output=True, text=True)
            print(p.stdout.split("\n")[0])
            for f in ("gmpxx.h",):
                if not os.path.exists("/usr/include/" + f) and not glob.glob("/usr/include/*/" + f):
                    raise HarnessError("no " + f)
            sys.exit(0)
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        sys.exit(check(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
    except HarnessError as e:
        die(str(e))


main()
