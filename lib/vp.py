"""Shared driver for the dieharder model-checking framework.

Builds the library and the front end from /repo's *current working tree*, builds the
harnesses of /verif/harness against them, runs harness shards, confirms violations by
replaying the failing case in a fresh process, and writes the evidence file.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NPROC = min(8, os.cpu_count() or 8)

LIBFLAGS = ["-std=c99", "-w", "-DVERSION=3.31.1", "-DLITTLE_ENDIAN=1"]
FEFLAGS = ["-w", "-DVERSION=3.31.1"]
VARIANTS = {
    "opt": ["-O2", "-g"],
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
LINK = ["-lgsl", "-lgslcblas", "-lm"]


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def makefile_sources(d, var):
    """The source list of a Makefile.am variable (so that added files are picked up)."""
    txt = open(os.path.join(REPO, d, "Makefile.am")).read()
    m = re.search(r"^%s\s*=\s*((?:[^\n]*\\\n)*[^\n]*)" % re.escape(var), txt, re.M)
    if not m:
        raise Broken("no %s in %s/Makefile.am" % (var, d))
    return [w for w in m.group(1).replace("\\\n", " ").split() if w.endswith(".c")]


def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "libdieharder", "dieharder"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".am")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def _compile(jobs):
    def one(job):
        cmd, out = job
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return (r.returncode, " ".join(cmd), r.stdout)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, cmd, o in ex.map(one, jobs):
            if rc:
                raise Broken("compile failed: %s\n%s" % (cmd, o[-3000:]))


def _prune():
    try:
        ents = sorted(glob.glob(os.path.join(CACHE, "*-*")), key=os.path.getmtime)
        for e in ents[:-12]:
            shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


def build(variant="opt"):
    """Build libdieharder (libdh.a), the front end without main (libfe.a) and the CLI
    (bin/dieharder) from the working tree. Returns the build directory."""
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash() + "-" + variant
    d = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(d, "ok")):
        return d
    _prune()
    tmp = tempfile.mkdtemp(prefix="tmp", dir=CACHE)
    try:
        inc = ["-I", os.path.join(REPO, "include")]
        fl = VARIANTS[variant]
        jobs, lo, fo = [], [], []
        for s in makefile_sources("libdieharder", "libdieharder_la_SOURCES"):
            o = os.path.join(tmp, "l_" + s.replace("/", "_") + ".o")
            jobs.append((["gcc", *LIBFLAGS, *fl, *inc, "-I", REPO + "/libdieharder", "-c", os.path.join(REPO, "libdieharder", s), "-o", o], o))
            lo.append(o)
        for s in makefile_sources("dieharder", "dieharder_SOURCES"):
            o = os.path.join(tmp, "f_" + s.replace("/", "_") + ".o")
            jobs.append((["gcc", *FEFLAGS, *fl, *inc, "-I", REPO + "/dieharder", "-c", os.path.join(REPO, "dieharder", s), "-o", o], o))
            fo.append(o)
        _compile(jobs)
        # rng_jenkins.c carries a main(); keep the library's copy out of the way.
        for o in lo:
            syms = sh(["nm", o])
            if re.search(r" T main$", syms, re.M):
                sh(["objcopy", "--redefine-sym", "main=libdh_main_%s" % re.sub(r"\W", "_", os.path.basename(o)), o])
        sh(["ar", "rcs", os.path.join(tmp, "libdh.a"), *lo])
        sh(["gcc", *fl, *fo, os.path.join(tmp, "libdh.a"), *LINK, "-o", os.path.join(tmp, "dieharder")])
        for o in fo:
            syms = sh(["nm", o])
            if re.search(r" T main$", syms, re.M):
                sh(["objcopy", "--redefine-sym", "main=dieharder_main", o])
        sh(["ar", "rcs", os.path.join(tmp, "libfe.a"), *fo])
        for o in lo + fo:
            os.unlink(o)
        open(os.path.join(tmp, "ok"), "w").write("ok\n")
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
            if not os.path.exists(os.path.join(d, "ok")):
                raise
        return d
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise


def shm():
    """A memory file system for the scratch files, if there is one with room; else None (the usual temporary directory)."""
    try:
        s = os.statvfs("/dev/shm")
        if s.f_bavail * s.f_frsize > 1 << 30 and os.access("/dev/shm", os.W_OK):
            return "/dev/shm"
    except OSError:
        pass
    return None


def harness(name, sources, variant="opt", frontend=True, extra=()):
    """Compile a harness against the current tree; returns the executable path."""
    d = build(variant)
    srcs = [os.path.join(VERIF, "harness", s) for s in sources]
    hh = hashlib.sha256()
    for s in srcs + sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        hh.update(open(s, "rb").read())
    hh.update(repr((extra, frontend)).encode())
    exe = os.path.join(d, "h_%s_%s" % (name, hh.hexdigest()[:10]))
    if os.path.exists(exe):
        return exe
    fl = VARIANTS[variant]
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "dieharder")]
    objs, jobs = [], []
    for s in srcs:
        o = exe + "_" + os.path.basename(s) + ".o"
        cc = ["g++", "-std=c++17"] if s.endswith(".cc") else ["gcc", "-std=gnu11"]
        jobs.append(([*cc, "-w", *fl, *extra, *inc, "-DLITTLE_ENDIAN=1", "-c", s, "-o", o], o))
        objs.append(o)
    _compile(jobs)
    libs = [os.path.join(d, "libfe.a"), os.path.join(d, "libdh.a")]
    sh(["g++", *fl, *[e for e in extra if e.startswith("-Wl")], *objs, "-Wl,--start-group", *libs, "-Wl,--end-group", *LINK, "-o", exe + ".tmp"])
    os.rename(exe + ".tmp", exe)
    for o in objs:
        os.unlink(o)
    return exe


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, level="model_checking", exhaustive=True):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.stats, self.samples, self.notes = {}, [], {}
        self.assumptions = []
        self.fails = []       # (key, message, replay-dict)
        self.exhaustive = exhaustive
        self.outcomes = set()
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and k.get("status") == "known"]

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def fail(self, key, msg, replay):
        self.fails.append((key, msg, replay))

    # ---- harness shards -------------------------------------------------
    def _one(self, exe, args, env, timeout, cwd):
        tmp = tempfile.mkdtemp(prefix="vp_", dir=cwd)
        out, prog = os.path.join(tmp, "out"), os.path.join(tmp, "prog")
        open(out, "w").close(); open(prog, "w").close()
        e = dict(os.environ, VP_OUT=out, VP_PROG=prog, VP_SCRATCH=tmp, LC_ALL="C",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
        e.update(env or {})
        t = time.time()
        err = os.path.join(tmp, "err")
        try:
            with open(err, "w") as ef:
                r = subprocess.run([exe, *args], stdout=subprocess.DEVNULL, stderr=ef,
                                   stdin=subprocess.DEVNULL, timeout=timeout, env=e, cwd=tmp)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        o = open(out, errors="replace").read()
        p = open(prog, errors="replace").read().rstrip("\0").strip()
        er = open(err, errors="replace").read()
        shutil.rmtree(tmp, ignore_errors=True)
        return rc, o, p, er, time.time() - t

    def run_harness(self, exe, args=(), nshards=NPROC, timeout=600, env=None, label=None):
        label = label or os.path.basename(exe)
        base = tempfile.mkdtemp(prefix="vprun_", dir=shm())
        try:
            with cf.ThreadPoolExecutor(nshards) as ex:
                futs = [ex.submit(self._one, exe, [*args, "--tier", self.tier, "--shard", "%d/%d" % (i, nshards)], env, timeout, base)
                        for i in range(nshards)]
                res = [f.result() for f in futs]
            seen = set()
            for rc, out, prog, err, dt in res:
                done = False
                for line in out.splitlines():
                    if line.startswith("STAT "):
                        _, k, v = line.split()
                        self.stat(k, int(v))
                    elif line.startswith("MAX "):
                        _, k, v = line.split()
                        self.notes[k] = max(self.notes.get(k, 0), int(v))
                    elif line.startswith("OUTCOME "):
                        self.outcomes.add(line[8:])
                    elif line.startswith("SAMPLE "):
                        self.sample(line[7:])
                    elif line.startswith("FAIL "):
                        m = re.match(r"FAIL \[(.*?)\] (.*)$", line)
                        case, msg = m.group(1), m.group(2)
                        if case not in seen:
                            seen.add(case)
                            self.fail(case, msg, {"exe": label, "args": list(args), "case": case})
                    elif line == "DONE":
                        done = True
                if not done or rc != 0:
                    case = prog or "startup"
                    if case not in seen:
                        seen.add(case)
                        why = "timed out" if rc == "timeout" else "ended early (status %s)" % rc
                        self.fail(case, "the code under test %s in this case: %s" % (why, err[-1500:]), {"exe": label, "args": list(args), "case": case})
            # confirm: replay each distinct failing case alone, in a fresh process
            confirmed = []
            for key, msg, rp in self.fails:
                if rp.get("exe") != label or rp.get("confirmed") is not None or len(confirmed) >= 5 or key == "startup":
                    continue
                rc, out, prog, err, dt = self._one(exe, [*args, "--tier", self.tier, "--case", rp["case"]], env, min(timeout, 300), base)
                rp["confirmed"] = ("FAIL [" in out) or (rc != 0) or ("DONE" not in out)
                rp["replay_output"] = (out + "\n" + err)[-3000:]
                confirmed.append(key)
        finally:
            shutil.rmtree(base, ignore_errors=True)

    # ---- finish ---------------------------------------------------------
    def finish(self, evidence_extra=None):
        real, knownhit = [], []
        for key, msg, rp in self.fails:
            k = next((k for k in self.known if k["key"] == key), None)
            (knownhit if k else real).append((key, msg, rp, k))
        cov = {}
        if self.level == "model_checking":
            cov["states"] = self.stats.get("states", 0)
            cov["transitions"] = self.stats.get("transitions", 0)
            cov["traces_validated_against_impl"] = self.stats.get("traces", 0)
        else:
            cov["evaluations"] = self.stats.get("evaluations", 0)
            cov["distinct_nontrivial"] = self.stats.get("distinct_nontrivial", 0)
        for k, v in self.stats.items():
            cov.setdefault(k, v)
        cov.update(self.notes)
        if self.outcomes:
            cov["distinct_outcomes"] = len(self.outcomes)
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = bool(self.exhaustive)
        if evidence_extra:
            cov.update(evidence_extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        EV = os.environ.get("VP_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(EV, exist_ok=True)
        with open(os.path.join(EV, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in {id(k): k for _, _, _, k in knownhit}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if real:
            rd = os.path.join(EV, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"case": k, "message": m, "replay": r} for k, m, r, _ in real[:50]], f, indent=1)
            for k, m, r, _ in real[:10]:
                print("  case %s: %s%s" % (k, m[:1500], "" if r.get("confirmed") is None else "  (replayed alone: %s)" % ("reproduced" if r["confirmed"] else "NOT reproduced alone; needs the preceding cases of its shard")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s %s" % (self.prop, self.tier, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
        return 0
