#!/usr/bin/env python3
"""Builds librmn from /repo's working tree, runs one bounded-exhaustive harness
(all shards), confirms every suspected violation by replaying it alone, writes
the evidence file.   run.py <property> [quick|thorough]   |   run.py --replay F
"""
import sys, os, json, subprocess, time, tempfile, shutil, fcntl, struct, signal

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "_build")
CHECKS = json.load(open(os.path.join(V, "checks.json")))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_lib(variant):
    d = os.path.join(B, variant)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    san = {"plain": "", "asan": "-fsanitize=address;-fno-omit-frame-pointer", "tsan": "-fsanitize=thread"}[variant]
    env = dict(os.environ, CC="gcc", CXX="g++", FC="gfortran")
    if not os.path.exists(os.path.join(d, "build.ninja")):
        r = sh(["cmake", "-G", "Ninja", "-S", os.path.join(V, "cmake"), "-B", d, "-DREPO=" + REPO,
                "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_FLAGS=-O1 -g1", "-DCMAKE_Fortran_FLAGS=-O1 -g1",
                "-DCMAKE_CXX_FLAGS=-O1 -g1", "-DSAN=" + san], env=env)
        if r.returncode:
            print(r.stdout[-3000:]); die("cmake failed")
    r = sh(["ninja", "-C", d], env=env)
    if r.returncode:
        print(r.stdout[-6000:]); die("build failed")
    return d, lock


def build_harness(prop, cfg):
    variant = cfg.get("variant", "plain")
    d, lock = build_lib(variant)
    hd = os.path.join(B, "h_" + prop)
    os.makedirs(hd, exist_ok=True)
    exe = os.path.join(hd, "harness")
    san = {"plain": [], "asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"]}[variant]
    lib = os.path.join(d, "librmn.a")
    objs = []
    procs = []
    for s in cfg["src"]:
        sp = os.path.join(V, s)
        o = os.path.join(hd, os.path.basename(s) + ".o")
        inc = ["-I", os.path.join(V, "harness"), "-I", os.path.join(V, "appstub"), "-I", os.path.join(REPO, "src/PUBLIC_INCLUDES"),
               "-I", os.path.join(REPO, "src/PUBLIC_INCLUDES/rmn"), "-I", os.path.join(REPO, "include"), "-I", os.path.join(d, "include"), "-I", os.path.join(REPO, "src")]
        if s.endswith((".F90", ".f90")):
            cmd = ["gfortran", "-O1", "-g1", "-c", "-fcray-pointer", "-ffree-line-length-none", "-fallow-argument-mismatch", "-w", "-J", hd] + inc
        elif s.endswith(".c"):
            cmd = ["gcc", "-O1", "-g1", "-w", "-D_GNU_SOURCE", "-c"] + inc
        else:
            cmd = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-D_GNU_SOURCE", "-c"] + inc
        cmd += cfg.get("cflags", []) + san + [sp, "-o", o]
        objs.append(o)
        if s.endswith((".F90", ".f90")):
            r = sh(cmd)
            if r.returncode:
                print(r.stdout[-4000:]); die("harness build failed: " + s)
        else:
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            print(o[-4000:]); die("harness build failed: " + s)
    cmd = ["g++", "-o", exe] + objs + san + cfg.get("ldflags", []) + ["-Wl,--start-group", lib, "-Wl,--end-group",
           "-lgfortran", "-lm", "-lpthread", "-ldl"]
    r = sh(cmd)
    if r.returncode:
        print(r.stdout[-4000:]); die("harness link failed")
    lock.close()
    return exe


def read_shared(path):
    try:
        b = open(path, "rb").read()
        cur, started = struct.unpack("qq", b[:16])
        return cur, started, b[16:].split(b"\0")[0].decode("latin1")
    except Exception:
        return -1, -1, ""


class Shard:
    def __init__(self, exe, base, tier, spec, only=-1, tag="", cfg=None):
        self.dir = os.path.join(base, "w%s_%s_%d" % (tag, spec.replace("/", "of"), only))
        os.makedirs(self.dir)
        self.out = self.dir + ".out"
        self.shared = self.dir + ".shm"
        self.log = open(self.dir + ".log", "wb")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
                   TMPDIR=self.dir, HOME=self.dir, MALLOC_PERTURB_="85")
        for k in list(env):
            if k.startswith(("FST_", "ARMNLIB", "FSTD", "WA_CONFIG", "APP_")):
                del env[k]
        env.update((cfg or {}).get("env", {}))
        self.p = subprocess.Popen([exe, "--tier", tier, "--shard", spec, "--only", str(only), "--out", self.out, "--shared", self.shared],
                                  cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=env, start_new_session=True)
        self.spec, self.only = spec, only
        self.hung = False
        self.last = (-2, time.time())

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        self.p.wait()

    def poll(self, caselimit):
        if self.p.poll() is not None:
            return True
        cur, started, _ = read_shared(self.shared)
        now = time.time()
        if started != self.last[0]:
            self.last = (started, now)
        elif now - self.last[1] > caselimit:
            self.hung = True
            self.kill()
            return True
        return False

    def result(self):
        res = dict(viol=[], cases=0, total=0, trans=0, evals=0, outcomes={}, counts={}, states=set(), samples=[], done=False)
        try:
            for line in open(self.out, errors="replace"):
                f = line.rstrip("\n").split("\t")
                k = f[0]
                if k == "VIOL": res["viol"].append((int(f[1]), f[2], f[3], f[4]))
                elif k == "CASES": res["cases"], res["total"] = int(f[1]), int(f[2])
                elif k == "TRANS": res["trans"] = int(f[1])
                elif k == "EVALS": res["evals"] = int(f[1])
                elif k == "OUTCOME": res["outcomes"][f[2]] = int(f[1])
                elif k == "COUNT": res["counts"][f[2]] = int(f[1])
                elif k == "S": res["states"].add(f[1])
                elif k == "SAMPLE": res["samples"].append("case %s: %s" % (f[1], f[2]))
                elif k == "DONE": res["done"] = True
        except FileNotFoundError:
            pass
        if not res["done"]:
            cur, _, desc = read_shared(self.shared)
            why = "hang (no progress)" if self.hung else "process ended (status %s)" % self.p.returncode
            try:
                tail = open(self.log.name, errors="replace").read()[-1500:]
            except Exception:
                tail = ""
            for l in tail.splitlines():
                if "ERROR: AddressSanitizer" in l: why += " " + l.strip()
            res["viol"].append((cur, "", desc, why))
        return res


def run_shards(exe, base, tier, specs, caselimit, total, only=-1, tag="", cfg=None):
    shards = [Shard(exe, base, tier, s, only, tag, cfg) for s in specs]
    t0 = time.time()
    pend = list(shards)
    while pend:
        time.sleep(0.05)
        pend = [s for s in pend if not s.poll(caselimit)]
        if time.time() - t0 > total:
            for s in pend:
                s.kill(); s.hung = True
            break
    return shards


def load_known():
    known, fixed = {}, []
    p = os.path.join(V, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known:"):
            # known: property=<id> sig=<sig> :: text
            head, text = line[6:].split("::", 1)
            d = dict(x.split("=", 1) for x in head.split())
            known[(d["property"], d["sig"])] = text.strip()
    return known


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        prop, tier = r["property"], r["tier"]
        exe = build_harness(prop, CHECKS[prop])
        base = tempfile.mkdtemp(prefix="verif_")
        try:
            sp = r.get("shard", "0/1")
            s = run_shards(exe, base, tier, [sp], 300, 900, r["only"], cfg=CHECKS[prop])[0]
            res = s.result()
            for v in res["viol"]:
                print("case", v[0], "|", v[2], "|", v[3])
            print(open(s.log.name, errors="replace").read()[-3000:])
        finally:
            shutil.rmtree(base, ignore_errors=True)
        sys.exit(1 if res["viol"] else 0)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[prop]
    t0 = time.time()
    exe = build_harness(prop, cfg)
    tb = time.time() - t0
    base = tempfile.mkdtemp(prefix="verif_", dir="/dev/shm" if cfg.get("shm", True) and os.access("/dev/shm", os.W_OK) else None)
    code = 0
    try:
        code = explore(prop, tier, cfg, exe, base, t0, tb)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(code)


def explore(prop, tier, cfg, exe, base, t0, tb):
    n = 1 if cfg.get("serial") else NPROC
    limit = cfg.get("limit", {}).get(tier, 700 if tier == "quick" else 5400)
    caselimit = cfg.get("caselimit", 60)
    shards = run_shards(exe, base, tier, ["%d/%d" % (i, n) for i in range(n)], caselimit, limit, cfg=cfg)
    agg = dict(viol=[], cases=0, trans=0, evals=0, outcomes={}, counts={}, states=set(), samples=[], total=0)
    incomplete = False
    for s in shards:
        r = s.result()
        agg["viol"] += [(s.spec,) + v for v in r["viol"]]
        for k in ("cases", "trans", "evals"): agg[k] += r[k]
        agg["total"] = max(agg["total"], r["total"])
        for k in ("outcomes", "counts"):
            for o, c in r[k].items(): agg[k][o] = agg[k].get(o, 0) + c
        agg["states"] |= r["states"]
        agg["samples"] += r["samples"][:1]
        incomplete |= not r["done"]
    known = load_known()
    knownhit, confirmed, flaky = {}, [], []
    cands = sorted(set(agg["viol"]), key=lambda v: (v[1] < 0, v[1]))
    for spec, case, sig, desc, msg in cands:
        if (prop, sig) in known:
            knownhit[sig] = known[(prop, sig)]
            continue
        if len(confirmed) >= 3 or len(flaky) >= 6:
            continue
        ok = False
        if case >= 0:
            r = run_shards(exe, base, tier, ["0/1"], 2 * caselimit, 300, case, "r", cfg)[0]
            rv = [v for v in r.result()["viol"] if (prop, v[1]) not in known]
            shutil.rmtree(r.dir, ignore_errors=True)
            if rv:
                ok, only, rs, msg2 = True, case, "0/1", rv[0][3]
        if not ok:
            # may depend on what the same process ran before: replay the whole shard
            r = run_shards(exe, base, tier, [spec], 2 * caselimit, limit, -1, "f", cfg)[0]
            rv = [v for v in r.result()["viol"] if (prop, v[1]) not in known]
            shutil.rmtree(r.dir, ignore_errors=True)
            if [v for v in rv if v[0] == case]:
                ok, only, rs, msg2 = True, -1, spec, rv[0][3]
        if not ok:
            flaky.append((case, desc, msg))
            continue
        rp = os.path.join(V, "replays", "%s_%s.json" % (prop, case))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=prop, tier=tier, only=only, shard=rs, case=case, description=desc, message=msg2 or msg), open(rp, "w"), indent=1)
        confirmed.append((rp, case, desc, msg2 or msg))
    for s, t in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for rp, case, desc, msg in confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("   case %d: %s\n   %s" % (case, desc[:600], msg[:600]))
    for f in flaky:
        print("note: not reproduced, not reported: case %d %s: %s" % (f[0], f[1][:200], f[2][:300]))
    wall = time.time() - t0
    lvl = cfg["level"]
    cov = dict(samples=agg["samples"][:6], distinct_outcomes=len(agg["outcomes"]), outcome_histogram=dict(sorted(agg["outcomes"].items(), key=lambda x: -x[1])[:25]))
    if agg["counts"]: cov["counts"] = agg["counts"]
    if lvl == "model_checking":
        cov.update(states=len(agg["states"]), transitions=agg["trans"], traces_validated_against_impl=agg["cases"])
    else:
        cov.update(evaluations=agg["evals"] or agg["cases"], distinct_nontrivial=len(agg["states"]), rule=cfg["rule"])
    cov["bound"] = cfg["bound"][tier] if isinstance(cfg["bound"], dict) else cfg["bound"]
    cov["cases_enumerated"] = agg["total"]
    cov["exhaustive"] = not incomplete
    cov["unreproduced_suspicions"] = len(flaky)
    cov["build_s"] = round(tb, 1)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=lvl, coverage=cov,
                   assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(confirmed)),
              open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: cases=%d states=%d transitions=%d evals=%d outcomes=%d violations=%d known=%d wall=%.1fs (build %.1fs)" %
          (prop, tier, agg["cases"], len(agg["states"]), agg["trans"], agg["evals"], len(agg["outcomes"]), len(confirmed), len(knownhit), wall, tb))
    if confirmed:
        return 1
    if incomplete and not flaky:
        return 1 if confirmed else 2
    return 0


main()
