"""The machinery that all checks share: running TLC, running the generator on
the cases it prints, reporting."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CPUS = max(2, min(8, os.cpu_count() or 2))


def scratch():
    """a directory of this run, removed when the process that made it ends"""
    d = os.environ.get("VK_SCRATCH")
    if d is None or not os.path.isdir(d):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix="vk_", dir=base)
        os.environ["VK_SCRATCH"] = d
        os.environ["TMPDIR"] = tempfile.tempdir = d
        atexit.register(_rm, os.getpid(), d)
    return d


def _rm(pid, d):
    if os.getpid() == pid and d.startswith(("/dev/shm/vk_", "/tmp/vk_")):
        shutil.rmtree(d, ignore_errors=True)


class Machinery(Exception):
    """the check itself is broken: neither a pass nor a violation"""


# --------------------------------------------------------------------------
# TLC

def tla(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, str):
        return v[1:] if v.startswith("=") else '"%s"' % v
    return str(v)


class TLCRun:
    def __init__(self):
        self.cases, self.states, self.distinct, self.traces, self.wall = [], 0, 0, 0, 0.0
        self.out = ""
        self.violated = None

    def add(self, o):
        self.cases += o.cases
        self.states += o.states
        self.distinct += o.distinct
        self.traces += o.traces
        return self


LINE = re.compile(r'^"CASE (.*)"$')


def tlc(module, consts, invariants=(), sim=None, depth=100, seed=None, spec="Spec", props=(),
        constraint=None, post=None, workers=1, timeout=600, files=None, extra="", expect_ok=True,
        heap="2g", dfs=False):
    """Runs TLC on a module of /verif/spec. sim: the number of simulated
    behaviours, None for all states. Returns a TLCRun with the printed cases."""
    d = tempfile.mkdtemp(dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, text in (files or {}).items():
        p = os.path.join(d, name)
        if os.path.islink(p):
            os.unlink(p)
        with open(p, "w") as fh:
            fh.write(text)
    cfg = ["SPECIFICATION %s" % spec]
    ops = {}
    if consts:
        cfg.append("CONSTANTS")
        for k, v in consts.items():
            if isinstance(v, str) and v.startswith("<-"):
                cfg.append("  %s %s" % (k, v))
            elif isinstance(v, (list, tuple, dict)) or (isinstance(v, (set, frozenset)) and
                                                        any(not isinstance(x, (str, int)) for x in v)) \
                    or (isinstance(v, str) and v.startswith("=")):
                ops["C_" + k] = v[1:] if isinstance(v, str) else tla(v)
                cfg.append("  %s <- C_%s" % (k, k))
            else:
                cfg.append("  %s = %s" % (k, tla(v)))
    root = module
    if ops or extra:
        root = "MC_" + module
        with open(os.path.join(d, root + ".tla"), "w") as fh:
            fh.write("---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n" % (
                root, module, "\n".join("%s == %s" % kv for kv in ops.items()), extra))
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if props:
        cfg.append("PROPERTIES " + " ".join(props))
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if post:
        cfg.append("POSTCONDITION " + post)
    cfg.append("CHECK_DEADLOCK FALSE")
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + d]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", tlc_classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
            "-config", "run.cfg", "-noGenerateSpecTE"]
    if sim is not None:
        cmd += ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)]
    elif seed is not None:
        cmd += ["-seed", str(seed)]
    cmd.append(root + ".tla")
    t0 = time.time()
    r = TLCRun()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC took more than %d s on %s" % (timeout, module))
    finally:
        out = locals().get("p") and p.stdout.decode("utf-8", "replace") or ""
        shutil.rmtree(d, ignore_errors=True)
    r.wall = time.time() - t0
    rest = []
    for line in out.splitlines():
        m = LINE.match(line)
        if m:
            r.cases.append(json.loads(json.loads('"' + m.group(1) + '"')))
        else:
            rest.append(line)
    r.out = "\n".join(rest)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", r.out)
    if m:
        r.states = r.distinct = int(m[-1])
    m = re.findall(r"(\d+) traces generated", r.out)
    if m:
        r.traces = int(m[-1])
    m = re.search(r"Error: (Invariant (\S+) is violated|.*)", r.out)
    if m and "Error: " in r.out:
        r.violated = m.group(2) or m.group(1)
        if expect_ok:
            raise Machinery("TLC on %s: %s: %s" % (module, r.out[r.out.index("Error: "):][:600], "\n".join(
                l for l in r.out.splitlines() if l.strip() and not re.match("Parsing|Semantic|Linting", l))[-3000:]))
    elif p.returncode != 0 and expect_ok:
        raise Machinery("TLC on %s ended with %d: %s" % (module, p.returncode, r.out[-6000:]))
    return r


def tlc_classpath():
    jars = ["/opt/veriftools/tla/tla2tools.jar"]
    for f in sorted(os.listdir("/opt/veriftools/tla")):
        if f.endswith(".jar") and "Community" in f:
            jars.append("/opt/veriftools/tla/" + f)
    return ":".join(jars)


def simulate(jobs):
    """jobs: list of argument dictionaries for tlc(), run side by side."""
    total = TLCRun()
    with cf.ThreadPoolExecutor(max_workers=max(1, CPUS - 1)) as ex:
        for r in ex.map(lambda kw: tlc(**kw), jobs):
            total.add(r)
    return total


def split(n, parts):
    return [n // parts + (1 if i < n % parts else 0) for i in range(parts)]


# --------------------------------------------------------------------------
# running the code under test

class Timeout(Exception):
    pass


def _alarm(_s, _f):
    raise Timeout("no result after the time limit")


def import_ctypeslib():
    """the package from the working tree of the repository"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import ctypeslib
    got = os.path.realpath(os.path.dirname(ctypeslib.__file__))
    if got != os.path.realpath(os.path.join(REPO, "ctypeslib")):
        raise Machinery("ctypeslib was imported from %s" % got)
    return ctypeslib


def config_for(opts=(), kinds=None, **kw):
    from ctypeslib.codegen import config
    cfg = config.CodegenConfig()
    cfg.clang_opts.extend(opts)
    if kinds:
        cfg._init_types(kinds)
    for k, v in kw.items():
        setattr(cfg, k, v)
    return cfg


def generate(src, opts=(), kinds=None, ext=".c", **kw):
    """generated Python text for a C source, by way of a file"""
    import io
    ctypeslib = import_ctypeslib()
    cfg = config_for(opts, kinds, **kw)
    fd, path = tempfile.mkstemp(ext, dir=scratch())
    os.write(fd, src.encode())
    os.close(fd)
    out = io.StringIO()
    try:
        ctypeslib.translate_files(path, out, cfg)
    finally:
        os.unlink(path)
    return out.getvalue()


def load(text, name="generated"):
    ns = {"__name__": name}
    exec(compile(text, name, "exec"), ns)
    return ns


def guarded(fn, case, limit=60):
    """runs fn(case) -> list of problems; an exception of the code is one"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(case)
    except Machinery:
        raise
    except Timeout as x:
        return ["the code %s" % x]
    except BaseException as x:  # noqa
        tb = traceback.extract_tb(x.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return ["the code failed with %s: %s (%s)" % (type(x).__name__, str(x)[:200], where)]
    finally:
        signal.alarm(0)


def _chunk(args):
    fn, cases, limit = args
    out = []
    slow = False
    for c in cases:
        if slow:
            out.append(("skipped", []))
            continue
        try:
            got = guarded(fn, c, limit)
            slow = any("no result after" in str(g) for g in got)
            out.append(("ok", got))
        except Machinery as x:
            out.append(("machinery", str(x)))
    return out


def run_cases(fn, cases, procs=CPUS, limit=30, chunk=20):
    """[problems of each case]. A crash of the interpreter is a problem of the
    case that caused it. Once many cases fail, the others are left out."""
    if not cases:
        return []
    n = max(1, min(procs, len(cases)))
    size = max(1, min(chunk, -(-len(cases) // (n * 4))))
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    results = [None] * len(chunks)
    todo = list(range(len(chunks)))
    enough = False
    while todo and not enough:
        pending = {}
        ex = cf.ProcessPoolExecutor(max_workers=n)
        try:
            pending = {ex.submit(_chunk, (fn, chunks[i], limit)): i for i in todo}
            crashed = 0
            for f in cf.as_completed(pending):
                if f.cancelled():
                    continue
                try:
                    results[pending[f]] = f.result()
                except cf.process.BrokenProcessPool:
                    crashed += 1
                    break
                if not enough and sum(1 for r in results if r and any(p for k, p in r)) > 12:
                    enough = True
                    for g in pending:
                        g.cancel()
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
        todo = [i for i in todo if results[i] is None]
        if todo and not enough:
            # somewhere the interpreter died: find the case, one process each
            for i in todo[:2 * n]:
                results[i] = []
                for case in chunks[i]:
                    one = cf.ProcessPoolExecutor(max_workers=1)
                    try:
                        results[i] += one.submit(_chunk, (fn, [case], limit)).result()
                    except cf.process.BrokenProcessPool:
                        results[i].append(("ok", ["the interpreter crashed"]))
                        enough = True
                    finally:
                        one.shutdown(wait=True)
            todo = [i for i in todo if results[i] is None]
    out = []
    for i, c in enumerate(chunks):
        out += results[i] if results[i] is not None else [("skipped", [])] * len(c)
    bad = [val for kind, val in out if kind == "machinery"]
    if bad and not any(val for kind, val in out if kind == "ok"):
        raise Machinery(bad[0])
    return [None if kind == "skipped" else val if kind == "ok" else [] for kind, val in out]


# --------------------------------------------------------------------------
# reports

class Report:
    def __init__(self, prop, level, tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.violations = []
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.keys = set()
        self.rule = ""
        self.known = []

    def thorough(self):
        return self.tier == "thorough"

    def tlc(self, r):
        self.states += r.distinct
        self.transitions += r.states
        return r

    def count(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.keys.add(hashlib.sha1(repr(key).encode()).digest()[:10])

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def replay(self, fn, cases, show=None, key=None, nontrivial=None, **kw):
        """runs fn on the cases and records what it reports; show(case) is the
        concrete input, for the report"""
        done = 0
        failing = []
        for case, problems in zip(cases, run_cases(fn, cases, **kw)):
            if problems is None:
                continue
            done += 1
            self.count(key(case) if key else json.dumps(case, sort_keys=True, default=str),
                       nontrivial(case) if nontrivial else True)
            self.traces += 1
            text = show(case) if show and (problems or len(self.samples) < 3) else None
            if problems:
                failing.append((problems, {"input": text, "case": case}))
            elif len(self.samples) < 3:
                self.sample(text if text is not None else case)
        failing.sort(key=lambda f: len(json.dumps(f[1], default=str)))
        self.violations += failing
        return done

    def violation(self, what, replay):
        """replay: JSON-able description of the failing case"""
        self.violations.append((what, replay))

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
        cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule,
                   samples=self.samples)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(d, "%s.json" % self.prop))
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.prop + "_"):
                os.unlink(os.path.join(rd, f))
        if not self.violations:
            print("%s: held on %d cases (%d distinct), %d specification states, %.1f s" % (
                self.prop, self.evaluations, len(self.keys), self.states, time.time() - self.t0))
            return 0
        for i, (what, replay) in enumerate(self.violations[:5]):
            path = os.path.join(rd, "%s_%d.json" % (self.prop, i + 1))
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "what": what, "case": replay}, fh, indent=1, default=str)
            if isinstance(what, (list, tuple)):
                what = "; ".join(map(str, what[:3]))
            print("  %s" % str(what)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.violations) > 5:
            print("  ... and %d more cases" % (len(self.violations) - 5))
        return 1


def known_findings(prop):
    """lines 'finding: property=ID key=KEY what fails' of known_findings.txt"""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out
