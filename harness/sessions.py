"""Runs histories of translations in new processes: the schedule of the
specification decides which job goes on, at calls of functions of ctypeslib."""
import contextlib
import io
import json
import os
import select
import subprocess
import sys
import tempfile
import threading
import time

import vk

if __name__ != "__main__":
    import project

CONFIGS = {
    "plain": dict(),
    "macros": dict(kinds="cdefmstu"),
    "comments": dict(kinds="cdefmstu", comments=True, docs=True, locations=True),
    "i386": dict(opts=["-target", "i386-linux"]),
    "mingw": dict(opts=["-target", "x86_64-pc-windows-gnu"], kinds="cdefmstu"),
    "arm": dict(opts=["-target", "armv7-linux"], kinds="cdefmstu"),
    "chosen": dict(kinds="cdefmstu", expressions=["[02468]$", "^S"], symbols=["fun3", "fun4", "var5"]),
    "types": dict(kinds="stu"),
    "defined": dict(opts=["-DEXTRA=1"], kinds="cdefmstu", includes=True),
}


def make(name):
    """a configuration object"""
    import re
    from ctypeslib.codegen import config
    c = CONFIGS[name]
    cfg = config.CodegenConfig()
    cfg.clang_opts.extend(c.get("opts", []))
    cfg._init_types(c.get("kinds", "cdefstu"))
    cfg.symbols = list(c.get("symbols", []))
    cfg.expressions = [re.compile(x) for x in c.get("expressions", [])]
    cfg.generate_comments = c.get("comments", False)
    cfg.generate_docstrings = c.get("docs", False)
    cfg.generate_locations = c.get("locations", False)
    cfg.filter_location = not c.get("includes", False)
    return cfg


def argv(name):
    c = CONFIGS[name]
    out = ["-k", c.get("kinds", "cdefstu")]
    for n in c.get("symbols", []):
        out += ["-s", n]
    for e in c.get("expressions", []):
        out += ["-r", e]
    for key, flag in (("comments", "-c"), ("docs", "-d"), ("locations", "-e"), ("includes", "-i")):
        if c.get(key):
            out.append(flag)
    if c.get("opts"):
        out.append("--clang-args=" + " ".join(c["opts"]))
    return out


def path_of(root, job):
    return os.path.join(root, "u%d_%s.c" % (job["unit"], job["fault"]))


def ask(root, job, shared):
    """the product of a job: its text"""
    import ctypeslib
    from ctypeslib import clang2py
    path = path_of(root, job)
    if job["entry"] == "command":
        fd, out = tempfile.mkstemp(".py")
        os.close(fd)
        try:
            rc = clang2py.main([path, "-o", out] + argv(job["cfg"]))
            if rc:
                raise RuntimeError("clang2py ends with %r" % rc)
            with open(out) as fh:
                return "".join(line for line in fh if not line.startswith("# flags "))
        finally:
            os.unlink(out)
    cfg = make(job["cfg"]) if job["own"] else shared.setdefault(job["cfg"], make(job["cfg"]))
    out = io.StringIO()
    if job["entry"] == "string":
        with open(path) as fh:
            ctypeslib.translate(fh.read(), out, cfg)
    elif job["entry"] == "file":
        ctypeslib.translate_files(path, out, cfg)
    elif job["entry"] == "list":
        ctypeslib.translate_files([path], out, cfg)
    elif job["entry"] == "namespace":
        return meaning(dict(ctypeslib.translate_files(path, None, cfg)))
    return out.getvalue()


def meaning(ns):
    import project
    m = project.Meaning(ns, set(ns.get("__all__", ())))
    return repr([(n, m.name(n)) for n in sorted(ns.get("__all__", ()))])


class Worker(threading.Thread):
    """a job that pauses after so many calls"""

    def __init__(self, root, job, shared):
        super().__init__(daemon=True)
        self.root, self.job, self.shared = root, job, shared
        self.go, self.paused = threading.Semaphore(0), threading.Semaphore(0)
        self.calls, self.limit = 0, None
        self.result = None
        self.prefix = os.path.join(vk.REPO, "ctypeslib") + os.sep

    def run(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.result = ["text", ask(self.root, self.job, self.shared)]
        except BaseException as x:  # noqa
            self.result = ["refused", type(x).__name__ + ": " + str(x)[:300]]
        finally:
            sys.settrace(None)
            self.paused.release()

    def trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.prefix):
            self.calls += 1
            if self.limit is not None and self.calls >= self.limit:
                self.paused.release()
                self.go.acquire()

    def step(self, limit):
        """on until so many calls in all, None: to the end"""
        if self.result is not None:
            return
        self.limit = limit
        self.go.release()
        if not self.paused.acquire(timeout=60):
            raise vk.Timeout("no result after the time limit")


def perform(root, case, calls, quanta):
    """calls: how many calls each job makes alone"""
    workers, steps, shared, modules = {}, {}, {}, {}
    for e in case["history"]:
        j = e["job"]
        job = case["jobs"][j - 1]
        if e["op"] == "start":
            workers[j] = Worker(root, job, shared)
            workers[j].start()
            steps[j] = 0
        elif e["op"] in ("run", "finish"):
            steps[j] = quanta if e["op"] == "finish" else steps[j] + 1
            n = calls.get(key(job)) if calls else None
            workers[j].step(None if steps[j] >= quanta or n is None else max(1, n * steps[j] // quanta))
        elif e["op"] == "load" and job["entry"] != "namespace" and workers[j].result[0] == "text":
            ns = {"__name__": "module%d" % j}
            exec(compile(workers[j].result[1], "module%d" % j, "exec"), ns)
            modules[j] = ns
    for w in workers.values():
        w.step(None)
    return {"results": {j: w.result for j, w in workers.items()},
            "calls": {j: w.calls for j, w in workers.items()},
            "modules": {j: meaning(ns) for j, ns in modules.items()}}


def key(job):
    return "%s/%s/%s/%s" % (job["unit"], job["cfg"], job["entry"], job["fault"])


def serve():
    """histories come in, one a line; each runs in a process of its own"""
    vk.import_ctypeslib()
    from ctypeslib import clang2py  # noqa
    import project  # noqa
    for line in sys.stdin:
        m = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                    out = perform(m["root"], m["case"], m["calls"], m["quanta"])
            except BaseException as x:  # noqa
                out = {"broken": "%s: %s" % (type(x).__name__, str(x)[:300])}
            with os.fdopen(w, "w") as fh:
                json.dump(out, fh)
            os._exit(0)
        os.close(w)
        data = b""
        end = time.time() + 90
        while True:
            if not select.select([r], [], [], max(0, end - time.time()))[0]:
                os.kill(pid, 9)
                data = json.dumps({"broken": "no result after the time limit"}).encode()
                break
            got = os.read(r, 1 << 16)
            if not got:
                break
            data += got
        os.close(r)
        os.waitpid(pid, 0)
        print(data.decode() or json.dumps({"broken": "the interpreter crashed"}), flush=True)


class Pool:
    """one process for each hash seed, all with the same input files"""

    def __init__(self, seeds):
        self.procs = []
        for s in seeds:
            env = dict(os.environ, PYTHONHASHSEED=str(s), VERIF_REPO=vk.REPO)
            self.procs.append(subprocess.Popen([vk.PY, os.path.abspath(__file__)], stdin=subprocess.PIPE,
                                               stdout=subprocess.PIPE, text=True, env=env, cwd=vk.scratch()))

    def run(self, messages):
        """[(process index, message)] -> answers in the same order"""
        out = [None] * len(messages)
        queues = {}
        for i, (p, m) in enumerate(messages):
            queues.setdefault(p, []).append((i, m))

        def work(p):
            f = self.procs[p]
            for i, m in queues[p]:
                f.stdin.write(json.dumps(m) + "\n")
                f.stdin.flush()
                line = f.stdout.readline()
                out[i] = json.loads(line) if line else {"broken": "the server process ended"}
        ts = [threading.Thread(target=work, args=(p,)) for p in queues]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    def close(self):
        for p in self.procs:
            p.stdin.close()
            p.wait()
            p.stdout.close()


if __name__ == "__main__":
    serve()
