"""Common machinery of the checks: builds the code under test from /repo's
working tree, runs the drivers, runs TLC and reports."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself could not run."""


def run(cmd, timeout=600, env=None, input=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          env=e, input=input, cwd=cwd, text=True, errors="replace")


# ------------------------------------------------------------------ building
def _hash(paths, extra):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def _headers():
    return glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.hpp")


REDEF = ["malloc", "calloc", "realloc", "free", "aligned_alloc"] \
    + ["pthread_mutex_" + x for x in ("init", "destroy", "lock", "trylock", "unlock")] \
    + ["pthread_cond_" + x for x in ("init", "destroy", "wait", "signal", "broadcast")] \
    + ["memcpy", "memmove", "memset"] \
    + ["fopen", "fclose", "fread", "fseek", "ftell"]


# calls which can be made to fail or which act on files
REDEF_IO = ["fopen", "fclose", "fread", "fwrite", "fseek", "ftell", "remove", "unlink", "opendir", "closedir", "mkdir", "ferror", "clock_gettime"]


def _redef(kind):
    r = []
    if kind == "io":
        for s in REDEF_IO:
            r += ["--redefine-sym", "%s=vf_%s" % (s, s)]
        return r
    if kind == "heap":
        for s in REDEF[:5]:
            r += ["--redefine-sym", "%s=vf_%s" % (s, s)]
        return r
    # the variables of the library are put back before each execution
    r += ["--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".bss=vf_lib_bss",
          "--rename-section", ".data=vf_lib_data", "--rename-section", ".data.rel.local=vf_lib_rel", "--rename-section", ".data.rel=vf_lib_rel"]
    for s in REDEF:
        r += ["--redefine-sym", "%s=vf_%s" % (s, s.replace("pthread_", ""))]
    return r + ["--redefine-sym", "__assert_fail=vf_assert_fail", "--redefine-sym", "sched_yield=vf_sched_yield"]


# what isn't initialised has a pattern rather than what was there by chance
SAN = ["-fsanitize=address,bounds,null,integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
FLAVORS = {
    # instrumented for the deterministic scheduler
    "sched": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-fno-stack-protector", "-D_DEBUG", "-w", "-fsanitize=thread",
                                   # PoolHead has unused bits, which would hide an ABA by chance
                                   "-ftrivial-auto-var-init=zero"], redef="sched"),
    # address and undefined behaviour sanitizers; errors end the process
    "asan": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-D_DEBUG", "-w", "-fno-omit-frame-pointer",
                                  *SAN]),
    # the same as a release build (no asserts), with failing allocations and
    # file operations
    "fault": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-U_FORTIFY_SOURCE", "-w", "-fno-omit-frame-pointer",
                                   *SAN], redef="io"),
    # as a release build, with the allocations behind the library's own failing
    "heap": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-U_FORTIFY_SOURCE", "-w", "-fno-omit-frame-pointer",
                                  *SAN], redef="heap"),
    "faultmem": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-U_FORTIFY_SOURCE", "-w", "-fno-omit-frame-pointer", "-DFIFTYONE_DEGREES_MEMORY_ONLY",
                                      *SAN], redef="io"),
    # without sanitizers
    "plain": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-D_DEBUG", "-w", "-mcx16"]),
    "memonly": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-D_DEBUG", "-w", "-fno-omit-frame-pointer",
                                     "-DFIFTYONE_DEGREES_MEMORY_ONLY",
                                     *SAN]),
    "nothread": dict(cc="gcc", flags=["-std=gnu11", "-g", "-O1", "-D_DEBUG", "-w", "-fno-omit-frame-pointer",
                                      "-DFIFTYONE_DEGREES_NO_THREADING",
                                      *SAN]),
}


def _compile(cc, src, obj, flags, redef):
    r = run([cc] + flags + ["-c", src, "-o", obj])
    if r.returncode != 0:
        raise Broken("compile of %s failed:\n%s" % (src, r.stderr[-3000:]))
    if redef:
        r = run(["objcopy"] + _redef(redef) + [obj])
        if r.returncode != 0:
            raise Broken("objcopy: " + r.stderr)


def lib(flavor, cxx=False):
    """Compiles the library sources of /repo and gives the list of objects."""
    f = FLAVORS[flavor]
    srcs = sorted(glob.glob(REPO + "/*.c"))
    if cxx:
        srcs += sorted(glob.glob(REPO + "/*.cpp"))
    key = _hash(srcs + _headers(), " ".join(f["flags"]) + f["cc"])
    d = os.path.join(BUILD, flavor + ("xx" if cxx else ""), key)
    objs = [os.path.join(d, os.path.basename(s) + ".o") for s in srcs]
    if os.path.exists(os.path.join(d, "ok")):
        return objs
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    os.makedirs(d)

    def one(i):
        s = srcs[i]
        if s.endswith(".cpp"):
            fl = [x if not x.startswith("-std=") else "-std=gnu++14" for x in f["flags"]]
            _compile("g++", s, objs[i], fl, f.get("redef"))
        else:
            _compile(f["cc"], s, objs[i], f["flags"], f.get("redef"))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(srcs))))
    open(os.path.join(d, "ok"), "w").close()
    return objs


def prog(name, flavor, srcs, cxx=False, extra=()):
    """Links a driver of /verif/harness with the library."""
    f = FLAVORS[flavor]
    objs = lib(flavor, cxx)
    d = os.path.dirname(objs[0])
    paths = [os.path.join(HARNESS, s) for s in srcs]
    deps = paths + glob.glob(HARNESS + "/*.h") + glob.glob(HARNESS + "/sched/*")
    out = os.path.join(d, name + "-" + _hash(deps, " ".join(extra)))
    if os.path.exists(out):
        return out
    flags = [x for x in f["flags"] if x != "-fsanitize=thread"]
    inc = ["-iquote", REPO, "-I", HARNESS]
    tmp = []

    def one(p):
        o = os.path.join(d, name + "." + os.path.basename(p) + ".o")
        if p.endswith(".cpp"):
            fl = [x if not x.startswith("-std=") else "-std=gnu++14" for x in flags]
            _compile("g++", p, o, fl + inc + list(extra), False)
        else:
            _compile(f["cc"], p, o, flags + inc + list(extra), False)
        return o
    with ThreadPoolExecutor(8) as ex:
        tmp = list(ex.map(one, paths))
    link = "g++" if cxx else f["cc"]
    r = run([link] + [x for x in flags if x.startswith("-f") or x.startswith("-g")] + tmp + objs
            + ["-o", out, "-lpthread", "-lm", "-latomic"])
    if r.returncode != 0:
        raise Broken("link of %s failed:\n%s" % (name, r.stderr[-3000:]))
    return out


# --------------------------------------------------------- sequential drivers
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2048:hard_rss_limit_mb=6144:max_malloc_fill_size=65536",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98",
    "MALLOC_PERTURB_": "171",
}


def _crash_reason(rc, err):
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err) or re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40]
    m = re.search(r"Assertion", err)
    if m:
        return "assert"
    if rc < 0:
        return "signal-%d" % -rc
    return "exit-%d" % rc


def run_scripts(binary, scripts, args=(), cwd=None, timeout=600, par=6, batch=None, env=None):
    """Each script is a line for the driver, which answers with one line holding
    a JSON array of events per script. A script which ends the process gets a
    final crash event instead. The order of the answers is that of the scripts."""
    out = [None] * len(scripts)
    errs = {}
    hung = []

    def work(lo, hi):
        i = lo
        crashes = 0
        while i < hi and len(hung) < 4:
            e = dict(os.environ); e.update(SAN_ENV)
            if env:
                e.update(env)
            try:
                p = subprocess.run([binary] + list(args), input="\n".join(scripts[i:hi]) + "\n", text=True, errors="replace",
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
                rc, so, se = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, se = -14, ""
                so = (ex.stdout or b"").decode(errors="replace")
            lines = so.split("\n")
            full, rest = lines[:-1], lines[-1]
            k = 0
            for ln in full:
                if not ln.startswith("["):
                    continue
                if i + k >= hi:
                    raise Broken("driver answered too much")
                try:
                    out[i + k] = json.loads(ln)
                except Exception:
                    raise Broken("driver output is not JSON: " + ln[:400])
                k += 1
            if i + k >= hi:
                if rc != 0:
                    raise Broken("driver ended with %d after its last script: %s" % (rc, se[-2000:]))
                return
            if rc == 0:
                raise Broken("driver stopped early: " + se[-2000:])
            if rc == 77:
                raise Broken("driver error: " + se[-2000:])
            # script i+k ended the process: keep the events it wrote
            ev = []
            if rest.startswith("["):
                s = rest.rstrip().rstrip(",")
                try:
                    ev = json.loads(s + "]")
                except Exception:
                    # an event was being written
                    s = s[:s.rfind("},") + 1]
                    try:
                        ev = json.loads(s + "]") if s else []
                    except Exception:
                        ev = []
            reason = _crash_reason(rc, se)
            del ev[2000:]
            ev.append({"e": "crash", "what": reason})
            out[i + k] = ev
            errs[i + k] = se[-4000:]
            i += k + 1
            crashes += 1
            if rc in (-14, -27):
                hung.append(i)
            if crashes > 60 or len(hung) >= 4:
                # enough evidence: do not spend the whole budget on it
                return
    n = len(scripts)
    if n == 0:
        return out, errs
    if batch is None:
        batch = max(1, min(400, (n + par - 1) // par))
    with ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(work, a, min(a + batch, n)) for a in range(0, n, batch)]
        for f in fs:
            f.result()
    return out, errs


# ------------------------------------------------------------------------ TLC
def _scratch():
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(dir=d)


def tlc(module, cfg=None, env=None, workers=1, mem="2g", timeout=800, extra=(), checks_deadlock=False):
    d = _scratch()
    try:
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:+TieredCompilation",
               "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", cfg or (module + ".cfg")] + ([] if checks_deadlock else ["-deadlock"]) + list(extra) + [module + ".tla"]
        try:
            r = run(cmd, timeout=timeout, env=env, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not finish in %d s on %s" % (timeout, module))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o = r.stdout + r.stderr
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=r.returncode, out=o, states=dist, transitions=gen,
                ok="Model checking completed. No error has been found" in o)


def model_check(chk, module, cfg=None, workers=4, mem="6g", timeout=800, env=None, expect_violation=None, label=None):
    """Checks the specification itself. A failure is an error of the framework,
    as the specification does not depend on the code."""
    r = tlc(module, cfg, env=env, workers=workers, mem=mem, timeout=timeout)
    if expect_violation:
        if expect_violation not in r["out"]:
            raise Broken("%s/%s: expected to see '%s'\n%s" % (module, cfg, expect_violation, r["out"][-3000:]))
    elif not r["ok"]:
        raise Broken("%s/%s: the specification fails its own check\n%s" % (module, cfg, r["out"][-3000:]))
    chk.states += r["states"]
    chk.transitions += r["transitions"]
    chk.models.append("%s: %d states, %d transitions" % (label or cfg or module, r["states"], r["transitions"]))
    return r


def models(chk, module, broken=()):
    """The bounds for quick and thorough are those of module.cfg and
    moduleBig.cfg. broken: (cfg, the error TLC has to report)"""
    big = os.path.exists(os.path.join(SPEC, module + "Big.cfg"))
    model_check(chk, module, module + "Big.cfg" if big and not chk.quick else None, workers=8)
    for cfg, err in broken:
        model_check(chk, module, cfg + ".cfg", workers=2, expect_violation=err)


def validate(chk, module, traces, cfg=None, par=6, chunk=None, timeout=800, env=None, mem="2g", count=True):
    """Validates traces against the trace specification. Gives the list of
    (index, position of the first event not accepted)."""
    cfg = cfg or module + ".cfg"
    bad = {}
    n = len(traces)
    if n == 0:
        return []
    if chunk is None:
        chunk = max(1, min(3000, (n + par - 1) // par))

    def work(lo, hi):
        idx = list(range(lo, hi))
        res = {}
        st = tn = 0
        rounds = 0
        while idx:
            fd, p = tempfile.mkstemp(dir=_tmpdir(), suffix=".json")
            with os.fdopen(fd, "w") as f:
                json.dump([traces[i] for i in idx], f)
            e = {"TRACES": p}
            if env:
                e.update(env)
            try:
                r = tlc(module, cfg, env=e, workers=1, mem=mem, timeout=timeout)
            finally:
                os.unlink(p)
            st += r["states"]; tn += r["transitions"]
            if "VFDONE" in r["out"]:
                m = re.search(r'<<"VFDONE", (\d+)>>', r["out"])
                if not m or int(m.group(1)) != len(idx) or not r["ok"]:
                    raise Broken("trace validation with %s is inconsistent\n%s" % (module, r["out"][-3000:]))
                for a, b in re.findall(r'<<"VFBAD", (\d+), (\d+)>>', r["out"]):
                    res[idx[int(a) - 1]] = int(b) - 1
                return res, st, tn
            # an evaluation error: the trace holds something the spec has no meaning for
            m = re.findall(r"^(?:/\\ )?tr = (\d+)", r["out"], re.M)
            ml = re.findall(r"^(?:/\\ )?l = (\d+)", r["out"], re.M)
            if not m:
                raise Broken("TLC failed on %s\n%s" % (module, r["out"][-4000:]))
            k = int(m[-1])
            res[idx[k - 1]] = int(ml[-1]) - 1 if ml else 0
            chk.notes.append("evaluation error on a trace: " + r["out"][-600:])
            del idx[k - 1]
            rounds += 1
            if rounds > 8:
                # enough evidence: the rest is left
                return res, st, tn
        return res, st, tn
    with ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(work, a, min(a + chunk, n)) for a in range(0, n, chunk)]
        for f in fs:
            r, st, tn = f.result()
            bad.update(r)
            chk.states += st
            chk.transitions += tn
    if count:
        chk.traces += n - len(bad)
    return sorted(bad.items())


def _tmpdir():
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def behaviours(chk, module, num, depth, cfg=None, env=None, timeout=300):
    """Random behaviours of a specification (TLC's simulation mode): the values
    it prints as VFSCRIPT <json>."""
    r = tlc(module, cfg, env=env, workers=1, timeout=timeout,
            extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(chk.seed)])
    out = []
    for m in re.finditer(r'^"?VFSCRIPT (.*?)"?$', r["out"], re.M):
        t = m.group(1)
        out.append(json.loads(t.replace('\\"', '"')))
    if not out:
        raise Broken("no behaviours from %s\n%s" % (module, r["out"][-3000:]))
    chk.extra["behaviours_of_the_spec_replayed"] = chk.extra.get("behaviours_of_the_spec_replayed", 0) + len(out)
    return out


def transitions(chk, module, cfg=None, env=None, timeout=600, mem="3g", keep=None):
    """A shortest history to each transition of the state graph of a
    specification: its action constraint prints them as VFSCRIPT <json>."""
    r = tlc(module, cfg, env=env, workers=1, timeout=timeout, mem=mem)
    out = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"?VFSCRIPT (.*?)"?$', r["out"], re.M)]
    if not out or "No error has been found" not in r["out"]:
        raise Broken("no transitions from %s\n%s" % (module, r["out"][-3000:]))
    # an outcome which is left open gives the same history twice
    out = [json.loads(x) for x in dict.fromkeys(json.dumps(x) for x in out)]
    if keep:
        out = [x for x in out if keep(x)]
    chk.extra["transitions_of_the_spec_replayed"] = chk.extra.get("transitions_of_the_spec_replayed", 0) + len(out)
    return out


# ----------------------------------------------------------------- the check
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"known: property=(\w+) id=([\w.-]+) (.*)", ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.start = time.time()
        self.states = self.transitions = self.traces = 0
        self.evaluations = self.distinct = 0
        self.models, self.notes, self.samples, self.extra = [], [], [], {}
        self.assumptions = []
        self.violations = []
        self.known = dict(known_findings(prop))
        self.seen_known = {}
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.rule = ""
        self.level = "model_checking"
        self.exhaustive = None

    def is_known(self, kid, what=None):
        """True when the finding is listed; notes that it was seen."""
        if kid in self.known:
            self.seen_known[kid] = self.seen_known.get(kid, 0) + 1
            return True
        return False

    def violation(self, what, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        data = dict(data); data["property"] = self.prop; data["what"] = what
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((what, p))

    def sample(self, s, limit=3):
        # a large one is cut, to keep the evidence readable
        text = json.dumps(s)
        if len(self.samples) < limit:
            self.samples.append(s if len(text) < 20000 else {"beginning": text[:5000], "characters": len(text)})

    def finish(self):
        cov = {}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        cov["evaluations"] = self.evaluations
        cov["distinct_nontrivial"] = self.distinct
        cov["rule"] = self.rule
        cov["samples"] = self.samples or ["none"]
        cov["models"] = self.models
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes[:10]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier="thorough" if not self.quick else "quick", seed=self.seed,
                           level=self.level, coverage=cov, assumptions=self.assumptions,
                           wall_s=round(time.time() - self.start, 2), violations=len(self.violations)), f, indent=1)
        for k, desc in self.known.items():
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, k, desc))
        for what, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:600])
        print("%s %s: %d states, %d traces validated, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.traces, len(self.violations), time.time() - self.start))
        sys.stdout.flush()
        return 1 if self.violations else 0


def hexs(s):
    """Encodes a string (str or bytes) for a driver script."""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "x" + s.hex()


def read_traces(path):
    out = []
    with open(path) as f:
        for ln in f:
            ln = ln.strip()
            if ln:
                out.append(json.loads(ln))
    return out


# ------------------------------------------------- schedules of the real code
def explore(chk, binary, cases, bound, maxexec, randexec, par=8, timeout=700):
    """Runs each case of a scheduler driver in a process of its own. Gives the
    list of (case, trace)."""
    d = _scratch()

    def one(i):
        o = os.path.join(d, "%d.json" % i)
        try:
            r = run([binary, str(chk.seed * 7919 + i), o, str(bound), str(maxexec), str(randexec)] + ([cases[i]] if isinstance(cases[i], str) else list(cases[i])), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("exploration of %s did not end" % cases[i])
        if r.returncode in (-4, -6, -7, -8, -11):
            # the code under test damaged its own process
            with open(o, "a+") as f:
                f.seek(0)
                whole = f.read().split("\n")[:-1]
            tr = []
            for ln in whole:
                try:
                    tr.append(json.loads(ln))
                except ValueError:
                    pass
            return [], tr + [[{"e": "scenario", "name": "crash", "t": 0}, {"e": "crash", "t": 0, "kind": "signal", "r": -r.returncode}]]
        if r.returncode != 0:
            raise Broken("scheduler driver failed on %s (%d): %s" % (cases[i], r.returncode, r.stderr[-1500:]))
        return [json.loads(x) for x in r.stdout.strip().split("\n")], read_traces(o)
    res, stats = [], []
    try:
        with ThreadPoolExecutor(par) as ex:
            for i, (st, tr) in enumerate(ex.map(one, range(len(cases)))):
                stats += st
                res += [(cases[i], t) for t in tr]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    chk.evaluations += sum(s["executions"] for s in stats)
    chk.distinct += sum(s["distinct"] for s in stats)
    if len(stats) > 40:
        chk.extra["schedules_of_more_cases"] = dict(cases=len(stats), executions=sum(s["executions"] for s in stats), bound=bound)
    else:
        chk.extra["schedules"] = chk.extra.get("schedules", []) + stats
    return res


def sequential(chk, binary, module, scripts, env=None, mutate=None, args=(), batch=None, cwd=None, drv_env=None, accept=None, cfg=None, par=6, chunk=None):
    """Runs scripts on a driver, validates the answers, reports what is not
    allowed and shows the binding. accept(script, trace, pos) names the known
    finding which explains a rejection, or gives None."""
    traces, errs = run_scripts(binary, scripts, args=args, batch=batch, cwd=cwd, env=drv_env, par=par)
    done = [i for i in range(len(scripts)) if traces[i] is not None]
    tr = [traces[i] for i in done]
    bad = validate(chk, module, tr, env=env, cfg=cfg, par=par, chunk=chunk)
    chk.evaluations += len(tr)
    chk.distinct += len(set(json.dumps(t) for t in tr))
    n = 0
    for k, pos in bad:
        i = done[k]
        t = tr[k]
        kid = accept(scripts[i], t, pos) if accept else None
        if kid and chk.is_known(kid):
            continue
        n += 1
        if n > 20:
            break
        chk.violation("%s does not allow event %d: %s of script %s" % (module, pos, json.dumps(t[pos] if pos < len(t) else None)[:300], scripts[i][:200]),
                      dict(script=scripts[i], trace=t, position=pos, driver=os.path.basename(binary), stderr=errs.get(i)))
    if tr:
        chk.sample(dict(script=scripts[done[0]][:500], trace=tr[0][:12]))
        chk.sample(dict(script=scripts[done[-1]][:500], trace=tr[-1][:12]))
    if mutate and not n:
        badset = dict(bad)
        binding_selftest(chk, module, [t for k, t in enumerate(tr) if k not in badset], mutate, cfg=cfg, env=env)
    return traces, bad


def binding_selftest(chk, module, traces, mutate, cfg=None, env=None, want=12):
    """Shows that the trace specification rejects damaged traces: mutate gives
    a damaged copy of a trace or None. At least one rejection is required and
    any damaged trace that is accepted is counted."""
    dam = []
    order = list(range(len(traces)))
    chk.rng.shuffle(order)
    for i in order:
        m = mutate(json.loads(json.dumps(traces[i])))
        if m is not None:
            dam.append(m)
        if len(dam) >= want:
            break
    if not dam:
        raise Broken("no trace to damage for the self test of " + module)
    sub = Check(chk.prop, chk.tier, chk.seed)
    bad = validate(sub, module, dam, cfg=cfg, par=1, env=env, count=False)
    if len(bad) < len(dam):
        ok = set(i for i, _ in bad)
        for i in range(len(dam)):
            if i not in ok:
                chk.notes.append("damaged trace accepted: " + json.dumps(dam[i])[:500])
        raise Broken("%s accepted %d of %d damaged traces" % (module, len(dam) - len(bad), len(dam)))
    chk.extra["damaged_traces_rejected"] = chk.extra.get("damaged_traces_rejected", 0) + len(bad)
