"""Shared machinery of the checks: building /repo, running TLC, recording
evidence and reporting violations.  See DESIGN.md."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
BUILD = os.path.join(VERIF, ".build")
NPROC = min(8, os.cpu_count() or 1)
CXX = "g++"
CXXFLAGS = ["-O1", "-g0", "-std=c++11", "-w", "-ftemplate-depth=300",
            "-DBOOST_FILESYSTEM_NO_DEPRECATED",
            "-I" + os.path.join(VERIF, "shim"), "-include", "boost/core/invoke_swap.hpp"]
LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"]
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The machinery itself failed: not a statement about the code."""


def units():
    text = open(os.path.join(SRC, "Jamfile.v2")).read()
    return sorted(set(re.findall(r"^\s*([A-Za-z0-9_]+)\.cpp", text, re.M)))


def tree_hash(extra=""):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(SRC)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".v2")):
                h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    h.update(" ".join(CXXFLAGS).encode()); h.update(extra.encode())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()


def _compile(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + CXXFLAGS + flags + ["-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return (src, r.stderr[-3000:])
    os.rename(tmp, obj)
    return None


def build(kind="exe", driver=None, need=None, flags=()):
    """Build the quickbook executable (kind='exe') or a driver in harness/
    linked with the given units of /repo/src.  Returns the program's path."""
    flags = list(flags)
    h = tree_hash(" ".join(flags))
    out = os.path.join(BUILD, h)
    with Lock(os.path.join(BUILD, "lock")):
        os.makedirs(out, exist_ok=True)
        # keep only a few old builds
        olds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                      if os.path.isdir(os.path.join(BUILD, d)))
        for _, d in olds[:-8]:
            if d != h: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.utime(out)
        us = units() if need is None else list(need)
        # heavy units first
        heavy = ["main_grammar", "quickbook", "syntax_highlight", "doc_info_grammar", "code_snippet",
                 "block_element_grammar", "actions", "phrase_element_grammar", "post_process"]
        us.sort(key=lambda u: heavy.index(u) if u in heavy else 99)
        jobs = [(os.path.join(SRC, u + ".cpp"), os.path.join(out, u + ".o"), flags) for u in us]
        name = "quickbook"
        if driver:
            src = os.path.join(VERIF, "harness", driver + ".cpp")
            dh = hashlib.sha256(open(src, "rb").read()).hexdigest()[:8]
            name = "drv_%s_%s" % (driver, dh)
            jobs.insert(0, (src, os.path.join(out, name + ".o"), flags + ["-I" + SRC, "-I" + os.path.join(VERIF, "harness")]))
        exe = os.path.join(out, name)
        if os.path.exists(exe):
            return exe
        with ThreadPoolExecutor(NPROC) as ex:
            errs = [e for e in ex.map(_compile, jobs) if e]
        if errs:
            raise Infra("compile failed: %s\n%s" % errs[0])
        objs = [j[1] for j in jobs]
        tmp = exe + ".tmp"
        r = subprocess.run([CXX] + [f for f in flags if f.startswith("-fsan")] + ["-o", tmp] + objs + LIBS,
                           capture_output=True, text=True)
        if r.returncode != 0 and driver and need is not None:
            # a function may have moved to another unit: link all but main()
            jobs = jobs[:1] + [(os.path.join(SRC, u + ".cpp"), os.path.join(out, u + ".o"), flags) if u != "quickbook" else
                               (os.path.join(SRC, u + ".cpp"), os.path.join(out, "not_main.o"), flags + ["-Dmain=quickbook_main"])
                               for u in units()]
            with ThreadPoolExecutor(NPROC) as ex:
                errs = [e for e in ex.map(_compile, jobs) if e]
            if errs:
                raise Infra("compile failed: %s\n%s" % errs[0])
            r = subprocess.run([CXX] + [f for f in flags if f.startswith("-fsan")] + ["-o", tmp] + [j[1] for j in jobs] + LIBS,
                               capture_output=True, text=True)
        if r.returncode != 0:
            raise Infra("link failed: " + r.stderr[-3000:])
        os.rename(tmp, exe)
        return exe


# --------------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=None, simulate=None, depth=None, timeout=600,
        heap="4g", keep=None, extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a scratch directory."""
    work = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(VERIF, "spec", f), work)
        if "\n" in cfg:     # the configuration itself
            with open(os.path.join(work, "Given.cfg"), "w") as fh: fh.write(cfg)
            cfg = "Given"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLAJARS, "tlc2.TLC",
               "-config", cfg + ".cfg", "-deadlock", "-metadir", os.path.join(work, "meta"),
               "-workers", str(workers or NPROC), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(SEED)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise Infra("TLC timed out on %s/%s" % (module, cfg))
        r = TlcResult()
        r.out = p.stdout + p.stderr
        r.out = "\n".join(l for l in r.out.splitlines()
                          if not re.match(r"(Parsing file|Semantic processing|Linting of|TLC2 Version|Running )", l))
        r.rc = p.returncode
        r.wall = time.time() - t
        if os.environ.get("VP_VERBOSE"): print("# tlc %s/%s %.1fs" % (module, cfg, r.wall), flush=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.out)
        r.generated, r.distinct = ([int(x.replace(",", "")) for x in m[-1]] if m else (0, 0))
        m = re.findall(r"(\d[\d,]*) states checked", r.out)
        if m and not r.generated: r.generated = int(m[-1].replace(",", ""))
        r.lines = p.stdout.splitlines()
        r.prints = [l for l in r.lines if l.startswith('<<"@')]
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def unquote(s):
    return json.loads(s)


def model_check(module, cfg, **kw):
    """Exhaustively check a bounded model; a property failing in the model is
    an error of the specification, not of the code."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise Infra("model %s/%s failed (rc %d):\n%s" % (module, cfg, r.rc, r.out[-4000:]))
    return r


def generate(module, cfg, **kw):
    """Run TLC as a generator.  The model prints <<"@GEN", json>>."""
    r = tlc(module, cfg, **kw)
    if r.rc != 0 or ("No error has been found" not in r.out and not kw.get("simulate")):
        raise Infra("generator %s/%s failed (rc %d):\n%s" % (module, cfg, r.rc, r.out[-4000:]))
    items = []
    for l in r.lines:
        if l.startswith('<<"@GEN", '):
            items.append(json.loads(json.loads(l[len('<<"@GEN", '):-2])))
    # TLC visits states in an order that depends on its workers
    items = sorted(items, key=lambda x: json.dumps(x, sort_keys=True))
    r.items = items
    return r


def validate(module, cfg, scenarios, expect_states=None, **kw):
    """Check recorded scenarios against a trace specification.  The module
    reads the scenarios from IOEnv.TRACE, starts one behaviour per scenario
    and prints <<"@BAD", index, message>> for one it cannot explain.
    Returns (TlcResult, [(index, message)])."""
    work = tempfile.mkdtemp(prefix="vp-trace-")
    try:
        path = os.path.join(work, "trace.ndjson");
        with open(path, "w") as f:
            for s in scenarios:
                f.write(json.dumps(s) + "\n")
        env = dict(kw.pop("env", {}) or {})
        env["TRACE"] = path
        r = tlc(module, cfg, env=env, **kw)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise Infra("trace validation %s/%s failed (rc %d):\n%s" % (module, cfg, r.rc, r.out[-2500:]))
        bad = {}
        ok = 0
        for l in r.lines:
            m = re.match(r'<<"@BAD", (\d+), (.*)>>$', l)
            if m:
                bad.setdefault(int(m.group(1)) - 1, m.group(2))
        if '<<"@BAD"' in r.out and not bad:
            raise Infra("unreadable @BAD line:\n" + r.out[-3000:])
        if expect_states is not None and not bad and r.distinct != expect_states:
            raise Infra("trace validation %s covered %d states, expected %d" % (module, r.distinct, expect_states))
        return r, sorted(bad.items())
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------- running code

def run_driver(exe, lines, timeout=120, env=None, chunks=NPROC):
    """Feed input lines to a line-by-line driver (one output line per input
    line), in parallel chunks.  Returns outputs; a crash or hang on a line
    gives {'crash': ...} for it."""
    lines = list(lines)
    if not lines:
        return []
    n = max(1, min(chunks, len(lines)))
    size = (len(lines) + n - 1) // n
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]

    def one(part):
        res = []
        todo = part
        while todo:
            try:
                p = subprocess.run([exe], input="\n".join(todo) + "\n", capture_output=True, text=True,
                                   timeout=timeout, errors="replace", env=env)
                out = p.stdout.splitlines(); rc = p.returncode; err = p.stderr
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b"").decode(errors="replace").splitlines(); rc = "timeout"; err = ""
            got = []
            for l in out:
                try: got.append(json.loads(l))
                except ValueError: break
            got = got[:len(todo)]
            res += got
            todo = todo[len(got):]
            if todo:
                if rc == 0:
                    raise Infra("driver %s stopped early:\n%s" % (exe, err[-2000:]))
                res.append({"crash": str(rc), "stderr": err[-1500:], "line": todo[0]})
                todo = todo[1:]
                cr = [r["crash"] for r in res if "crash" in r]
                if len(cr) > 20 or cr.count("timeout") > 1:
                    res += [{"skipped": 1}] * len(todo)
                    todo = []
        return res
    with ThreadPoolExecutor(n) as ex:
        return [x for part in ex.map(one, parts) for x in part]


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(fn, items))


def hx(b):
    if isinstance(b, str): b = b.encode("utf-8", "surrogateescape")
    return bytes(b).hex() or "-"


# --------------------------------------------------------------- the check

class Check:
    def __init__(self, pid, level, technique=""):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.bad = []          # (key, description, replay data)
        self.known = load_known(pid)
        self.models = []

    def model(self, r, name):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.models.append({"model": name, "distinct_states": r.distinct, "states_generated": r.generated,
                            "wall_s": round(r.wall, 1)})

    def violation(self, key, text, replay):
        self.bad.append((key, text, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        new, seen = [], {}
        for key, text, replay in self.bad:
            k = next((k for k in self.known if k["key"] == key or
                      (k.get("regex") and re.search(k["regex"], key))), None)
            if k: seen.setdefault(k["id"], (k, text))
            else: new.append((key, text, replay))
        self.cov["models"] = self.models
        self.cov["known_findings_seen"] = sorted(seen)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, text in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for k in self.known:
            if k["id"] not in seen:
                print("note: known finding %s was not met in this run" % k["id"])
        if new:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (key, text, replay) in enumerate(new[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": text, "case": replay}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + text[:1500].replace("\n", "\n  "))
            if len(new) > 5: print("  ... and %d more" % (len(new) - 5))
            sys.stdout.flush()
            return 1
        print("OK property=%s %d cases, %.1fs" % (self.pid, self.cov["evaluations"], time.time() - self.t0))
        return 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            k = json.loads(l)
            if k["property"] == pid: out.append(k)
    return out


def observed_at(o, msg):
    m = re.search(r'"step\\?\\?":(\d+)', msg)
    if m and "ops" in o and 0 < int(m.group(1)) <= len(o["ops"]):
        return "step %s: %s" % (m.group(1), json.dumps(o["ops"][int(m.group(1)) - 1])[:1200])
    return json.dumps(o)[:1500]


def scenario_check(check, exe, cases, render, module, cfg, keyfn=None, describe=None, timeout=120,
                   states=None, tlc_kw=None, label=None, record=None):
    """cases -> driver lines -> recorded results -> TLC.  `render(case)` gives
    the driver's input line; the recorded JSON (or what `record(case, it)`
    makes of it) is what TLC judges."""
    outs = run_driver(exe, [render(c) for c in cases], timeout=timeout)
    good, idx = [], []
    for i, o in enumerate(outs):
        if "skipped" in o: continue
        if "crash" in o:
            again = run_driver(exe, [render(cases[i])], timeout=timeout)[0]
            if "crash" in again:
                check.violation("crash:" + (keyfn(cases[i]) if keyfn else json.dumps(cases[i])),
                                "the code crashed (status %s) on %s\n%s" % (o["crash"], json.dumps(cases[i])[:600], o["stderr"][-600:]),
                                cases[i])
        else:
            good.append(record(cases[i], o) if record else o); idx.append(i)
    r, bad = validate(module, cfg, good, expect_states=sum(states(o) for o in good) if states else 2 * len(good), **(tlc_kw or {}))
    if bad:
        # a rejection counts only if a fresh run of the code gives it again
        again = run_driver(exe, [render(cases[idx[b]]) for b, _ in bad], timeout=timeout)
        keep = [(b, record(cases[idx[b]], a) if record else a) for (b, _), a in zip(bad, again) if "crash" not in a and "skipped" not in a]
        if keep:
            r2, bad2 = validate(module, cfg, [a for _, a in keep], **(tlc_kw or {}))
            for j, msg in bad2:
                c = cases[idx[keep[j][0]]]
                check.violation(keyfn(c) if keyfn else json.dumps(c, sort_keys=True),
                                "%s\n  observed: %s\n  specification: %s" % (
                                    describe(c) if describe else json.dumps(c)[:600], observed_at(keep[j][1], msg), msg[:1500]),
                                {"case": c, "observed": keep[j][1], "specification": msg})
    check.model(r, label or (module + "/" + cfg))
    check.cov["traces_validated_against_impl"] += len(good)
    check.cov["evaluations"] += len(good)
    return outs


def machine_check(pid, module, driver, need, order, rule, gens, flags=("-fsanitize=address", "-fno-omit-frame-pointer"),
                  assumptions=(), nontrivial=None, extra=(), states=None, mc=True, render=None, check=None):
    """A module of operations (X.tla: Apply, Enabled), its model check (X.cfg),
    operation sequences generated from it (XGen), replayed on the real classes
    by harness/<driver>.cpp, and the recorded results validated by XTrace.
    gens: [(cfg, {simulate/depth...})]."""
    c = check or Check(pid, "model_checking")
    c.cov["rule"] = rule
    if mc: c.model(model_check(module, module), module)
    exe = build(driver=driver, need=need, flags=list(flags))
    cases = list(extra)
    for cfg, kw in gens:
        g = generate(module.replace("MC", "") + "Gen", cfg, workers=1, timeout=850, **kw)
        c.model(g, cfg)
        cases += g.items
    words = lambda o: " ".join([o["op"]] + [bytes(o[f]).hex() or "-" if isinstance(o[f], list) else str(o[f]) for f in order.get(o["op"], "").split()])
    def line(x):
        if isinstance(x, dict): return " ".join([render(x)] + [words(o) for o in x["ops"]])
        return " ".join(map(words, x))
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99"
    outs = []
    for at in range(0, len(cases), 10000):
        part = cases[at:at + 10000]
        outs += scenario_check(c, exe, part, line, module.replace("MC", "") + "Trace", module.replace("MC", "") + "Trace", states=states or (lambda o: len(o["ops"]) + 2),
                               keyfn=line, describe=lambda x: "operations: " + line(x))
    c.cov["distinct_nontrivial"] += len({line(x) for x, o in zip(cases, outs) if "ops" in o and (nontrivial(o) if nontrivial else len(o["ops"]) > 1)})
    c.cov["samples"] += [line(cases[i]) for i in (0, len(cases) // 2, len(cases) - 1)]
    c.assumptions += list(assumptions)
    return c if check else c.finish()
