"""Performs the calls of Calls.tla and observes how they end."""
import io
import logging
import os
import random
import subprocess
import sys
import tempfile
import traceback

import p_c05
import project
import render
import sessions
import units
import vk

FEATURES = ["union", "pack", "nest", "inner", "fwd", "implicit", "typedef", "anontypedef", "enum", "fnptr", "func", "var", "macro", "again"]
CONFIGS = ["plain", "macros", "comments", "i386", "chosen", "defined"]
LINES = {
    "syntax": "int 5x;", "unknown type": "nosuch_t nosuch;", "conflict": "extern int conflict;\nextern long conflict;",
    "error directive": "#error refused", "missing include": '#include "nosuch.h"', "incomplete member": "struct Holder { struct Nosuch held; };",
    "assertion": '_Static_assert(sizeof(int) == 77, "refused");', "negative array": "int negative[-1];",
    "unfinished record": "struct Unfinished {\n int a;", "unfinished if": "#if 1", "unfinished comment": "/* without end",
    "unfinished string": 'char *unfinished = "abc;', "redefinition": "struct Twice { int a; };\nstruct Twice { int a; };",
    "same member": "struct Same { int a; int a; };", "same enumerator": "enum Same { SAME1, SAME1 };", "unbalanced": "}", "bad character": "@",
    "bad octal": "int octal = 089;", "bit-field alone": "int alone : 3;", "wide bit-field": "struct Wide { int w : 99; };",
    "in a header": '#include "bad_header.h"',
    "warning": "#warning careful", "pragma": "#pragma nosuch pragma", "overflow": "int overflow = 99999999999;",
    "redefined macro": "#define REDEFINED 1\n#define REDEFINED 2", "extern initialised": "extern int initialised = 3;", "no name": "typedef int;",
    "unused": "static int unused(void);", "empty record": "struct EmptyRecord {};"}
FAULTS = set(LINES) | {"none", "kind", "option", "depth", "no files", "missing file", "directory", "missing second", "library", "preload", "module",
                       "regex", "no such directory", "output is a directory", "full device", "target", "standard", "flag", "in the second file"}
ARGS = {"kind": ["-k", "x"], "option": ["--nosuch"], "depth": ["--max-depth", "x"], "library": ["-l", "/nonexistent/libnosuch.so"],
        "preload": ["-p", "/nonexistent/libnosuch.so"], "module": ["-m", "nosuchmodule"], "regex": ["-r", "("], "target": ["-t", "bogus"]}
OPTS = {"standard": ["-std=bogus"], "flag": ["-nosuchflag"], "target": ["-target", "bogus"]}


def body(unit, fault, at):
    q = units.Quals(repr(unit["target"]))
    r = render.Unit(unit, qual=q, each=q.decl)
    lines = [r.decl(d) for d in unit["decls"] if d["d"] != "inner"]
    if fault in LINES:
        lines.insert(len(lines) * at // 4, LINES[fault])
    return "\n".join(lines) + "\n#ifdef EXTRA\nint extra = EXTRA;\n#endif\n"


class Place:
    """the files of a sequence of calls"""

    def __init__(self, case):
        self.root = tempfile.mkdtemp(dir=vk.scratch())
        self.tmp = os.path.join(self.root, "tmp")
        self.out = os.path.join(self.root, "out.py")
        os.mkdir(self.tmp)
        self.case = case
        self.put("bad_header.h", "struct Bad { nosuch_t x; };\n")
        self.put("second_bad.c", "int fine;\nnosuch_t x;\n")

    def put(self, name, text):
        path = os.path.join(self.root, name)
        with open(path, "w") as fh:
            fh.write(text)
        return path


def command_line(place, call, path):
    f = call["fault"]
    argv = sessions.argv(call["cfg"])
    if f in OPTS and f not in ARGS:
        argv = [a for a in argv if not a.startswith("--clang-args")] + [
            "--clang-args=" + " ".join(sessions.CONFIGS[call["cfg"]].get("opts", []) + OPTS[f])]
    argv += ARGS.get(f, [])
    if call["out"] == "file":
        out = {"no such directory": os.path.join(place.root, "nosuch", "x.py"), "output is a directory": place.tmp,
               "full device": "/dev/full"}.get(f, place.out)
        argv += ["-o", out]
    files = {"no files": [], "missing file": [os.path.join(place.root, "nosuch.c")], "directory": [place.root],
             "missing second": [path, os.path.join(place.root, "nosuch.c")],
             "in the second file": [path, os.path.join(place.root, "second_bad.c")]}.get(f, [path])
    return (["-"] if call["entry"] == "stdin" and files else files) + argv


def in_process(argv, path, stdin):
    """main() as the command runs it: (status, stdout, stderr)"""
    from ctypeslib import clang2py
    streams = [tempfile.TemporaryFile(dir=vk.scratch()) for _ in range(2)]
    saved = [os.dup(1), os.dup(2)]
    old = sys.stdin
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(streams[0].fileno(), 1)
    os.dup2(streams[1].fileno(), 2)
    out, err = sys.stdout, sys.stderr
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)
    root = logging.getLogger()
    handlers = root.handlers[:]
    root.handlers[:] = []
    logging.disable(logging.NOTSET)
    if stdin:
        sys.stdin = open(path)
    try:
        status = clang2py.main(argv)
    except SystemExit as x:
        status = x.code
    except Exception:
        traceback.print_exc()
        status = 1
    finally:
        if stdin:
            sys.stdin.close()
            sys.stdin = old
        sys.stdout.flush()
        sys.stderr.flush()
        logging.disable(logging.CRITICAL)
        root.handlers[:] = handlers
        sys.stdout, sys.stderr = out, err
        for k in (0, 1):
            os.dup2(saved[k], k + 1)
            os.close(saved[k])
    got = []
    for s in streams:
        s.seek(0)
        got.append(s.read().decode("utf-8", "replace"))
        s.close()
    return status or 0, got[0], got[1]


def as_process(argv, path, stdin, tmp, cwd=None):
    env = dict(os.environ, PYTHONPATH=vk.REPO, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
    with open(path if stdin else os.devnull) as fh:
        p = subprocess.run([vk.PY, "-m", "ctypeslib.clang2py"] + argv, stdin=fh, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, cwd=cwd or tmp, timeout=60)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def perform(place, call, unit):
    """(ended "ok" or "refused", module text or names, problems)"""
    import ctypeslib
    problems = []
    path = place.put("unit%d.c" % call["unit"], body(unit, call["fault"], call["at"]))
    before = read(place.out)
    stdin = call["entry"] == "stdin"
    module = None
    if call["entry"] in ("command", "stdin"):
        argv = command_line(place, call, path)
        if stdin:
            argv.append("--clang-args=" + " ".join(sessions.CONFIGS[call["cfg"]].get("opts", []) + OPTS.get(call["fault"], []) + ["-I" + place.root]))
        if call["proc"]:
            status, out, err = as_process(argv, path, stdin, place.tmp)
        else:
            status, out, err = in_process(argv, path, stdin)
        ended = "ok" if status == 0 else "refused"
        if ended == "refused":
            if says(out):
                problems.append("refused, but the standard output has %r" % out[-120:])
            if not err.strip():
                problems.append("refused with status %r, and no message" % status)
            if call["out"] == "file" and says(read(place.out)) and read(place.out) != before:
                problems.append("refused, but the output file has %r" % read(place.out)[-120:])
        elif call["out"] == "file":
            module = read(place.out)
            if out:
                problems.append("with -o the standard output has %r" % out[:120])
        else:
            module = out
        if "Traceback" in err and ended == "ok":
            problems.append("ends well with a traceback: %s" % err[-200:])
    else:
        cfg = sessions.make(call["cfg"])
        cfg.clang_opts.extend(OPTS.get(call["fault"], []))
        stream = io.StringIO() if call["out"] == "stream" else None
        saved = os.dup(1), tempfile.TemporaryFile(dir=vk.scratch())
        sys.stdout.flush()
        os.dup2(saved[1].fileno(), 1)
        try:
            f = call["fault"]
            if call["entry"] == "string":
                with open(path) as fh:
                    got = ctypeslib.translate(fh.read(), stream, cfg)
            else:
                files = [path] if f != "in the second file" else [path, os.path.join(place.root, "second_bad.c")]
                got = ctypeslib.translate_files(files if call["entry"] == "list" else path, stream, cfg)
            ended = "ok"
            module = stream.getvalue() if stream is not None else dict(got)
        except Exception as x:
            ended = "refused"
            module = "%s: %s" % (type(x).__name__, x)
            if stream is not None and says(stream.getvalue()):
                problems.append("refused, but %r was written" % stream.getvalue()[-120:])
        finally:
            sys.stdout.flush()
            os.dup2(saved[0], 1)
            os.close(saved[0])
            saved[1].seek(0)
            out = saved[1].read()
            saved[1].close()
        if out:
            problems.append("the call writes %r to the standard output" % out[:120])
    left = os.listdir(place.tmp)
    if left:
        problems.append("temporary files are left: %s" % left)
    return ended, module, problems


def says(text):
    """there is more than comments"""
    return any(line.strip() and not line.startswith("#") for line in (text or "").splitlines())


def read(path):
    try:
        with open(path) as fh:
            return fh.read()
    except FileNotFoundError:
        return None


def reference(unit, cfg):
    """the module of a unit without mistakes"""
    import ctypeslib
    fd, path = tempfile.mkstemp(".c", dir=vk.scratch())
    os.write(fd, body(unit, "none", 0).encode())
    os.close(fd)
    out = io.StringIO()
    try:
        ctypeslib.translate_files([path], out, sessions.make(cfg))
    finally:
        os.unlink(path)
    return vk.load(out.getvalue())


def names(unit):
    return p_c05.declared(unit) | {"%s_%s" % (u, t) for u, t in unit["inc"] or []} | {"extra"}


def meaning(ns, unit):
    """what the declared names of the unit are"""
    n = names(unit)
    m = project.Meaning(ns, n)
    return {x: m.name(x) for x in n if x in ns}


def check(case):
    """the calls of a case, one after the other"""
    vk.import_ctypeslib()
    place = Place(case)
    old = tempfile.tempdir
    problems = []
    try:
        want = {}
        for c in case["calls"]:
            k = (c["unit"], c["cfg"])
            if k not in want:
                want[k] = meaning(reference(case["pool"][str(c["unit"])], c["cfg"]), case["pool"][str(c["unit"])])
        tempfile.tempdir = place.tmp
        os.environ["TMPDIR"] = place.tmp
        for i, c in enumerate(case["calls"], 1):
            unit = case["pool"][str(c["unit"])]
            ended, module, found = perform(place, c, unit)
            problems += ["call %d (%s): %s" % (i, describe(c), p) for p in found]
            if ended != c["end"]:
                problems.append("call %d (%s) is %s, expected %s%s" % (i, describe(c), ended, c["end"], ": " + str(module)[:200] if isinstance(module, str) and ended == "refused" else ""))
            elif ended == "ok":
                tempfile.tempdir = old
                try:
                    ns = vk.load(module) if isinstance(module, str) else module
                except Exception as x:
                    problems.append("call %d (%s): the module fails with %s: %s" % (i, describe(c), type(x).__name__, x))
                    ns = None
                tempfile.tempdir = place.tmp
                if ns is not None:
                    got, w = meaning(ns, unit), want[c["unit"], c["cfg"]]
                    for n in sorted(set(w) | set(got)):
                        if got.get(n) != w.get(n):
                            problems.append("call %d (%s): %s is %s, expected %s" % (i, describe(c), n, got.get(n), w.get(n)))
                            break
    finally:
        tempfile.tempdir = old
        os.environ["TMPDIR"] = old or vk.scratch()
    return problems


def describe(c):
    return "%s to %s, %s, %s%s" % (c["entry"], c["out"], c["cfg"], c["fault"], ", own process" if c.get("proc") else "")


def show(case):
    out = ["%d: %s, unit %d, at %d/4: %s" % (i, describe(c), c["unit"], c["at"], c["end"]) for i, c in enumerate(case["calls"], 1)]
    u = case["calls"][0]
    return "\n".join(out) + "\n" + body(case["pool"][str(u["unit"])], u["fault"], u["at"])


INV = ["CallsOK", "OldFileKept", "TempsOK", "Emit"]


def consts(pool, calls, rnd, **kw):
    return dict(dict(Units=pool, Configs=set(CONFIGS), Entries={"string", "file", "list", "command", "stdin"},
                     Outs={"stdout", "file", "stream", "namespace"}, Faults=FAULTS, MaxCalls=calls, Random=rnd), **kw)


def pool(rep, n, seed):
    cases = rep.tlc(vk.simulate(units.sim_jobs(n, seed, parts=4, features=FEATURES, decls=10))).cases[:n]
    return {str(i): c for i, c in enumerate(cases, 1)}


def attach(cases, pool):
    return [dict(c, pool={str(x["unit"]): pool[str(x["unit"])] for x in c["calls"]}) for c in cases]
