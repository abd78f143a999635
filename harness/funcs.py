"""Libraries and headers for the cases of Funcs.tla."""
import contextlib
import ctypes
import hashlib
import io
import os
import pickle
import subprocess
import tempfile

import vk

VARS = {"va": ("int va{}", "{i}"), "vb": ("double vb{}", "{i}.5"), "vc": ("struct vrec vc{}", "{{ {i}, {i}.25 }}"),
        "vd": ("short vd{}[3]", "{{ {i}, 2, 3 }}"), "class": ("long class{}", "{i}")}
TYPES = "struct vrec { int a; double b; };\n"
CTYPES = {"va": ctypes.c_int, "vb": ctypes.c_double, "vd": ctypes.c_short * 3, "class": ctypes.c_long}


def c_function(name, kind, who):
    body = "(int x) { return %d * 100 + x; }" % who
    f = {"global": "int {n}{b}", "weak": "__attribute__((weak)) int {n}{b}",
         "alias": "static int {n}_impl{b}\nint {n}(int) __attribute__((alias(\"{n}_impl\")));",
         "ifunc": "static int {n}_impl{b}\nstatic void *{n}_pick(void) {{ return {n}_impl; }}\n"
                  "int {n}(int) __attribute__((ifunc(\"{n}_pick\")));",
         "versioned": "int {n}_v{b}\n__asm__(\".symver {n}_v, {n}@@V1\");",
         "old": "int {n}_v{b}\n__asm__(\".symver {n}_v, {n}@V1\");",
         "protected": "__attribute__((visibility(\"protected\"))) int {n}{b}",
         "static": "__attribute__((used)) static int {n}{b}", "hidden": "__attribute__((visibility(\"hidden\"))) int {n}{b}",
         "undefined": "extern __attribute__((weak)) int {n}(int); int use_{n}_%d(void) {{ return {n} ? {n}(1) : 0; }}" % who}[kind]
    return f.format(n=name, b=body)


def c_variable(name, kind, who):
    decl, init = VARS[name]
    decl = decl.format("")
    return {"data": decl + " = " + init.format(i=who), "bss": decl, "const": "const " + decl + " = " + init.format(i=who),
            "hidden": "__attribute__((visibility(\"hidden\"))) " + decl, "weak": "__attribute__((weak)) " + decl + " = " + init.format(i=who)
            }[kind] + ";"


def compile_lib(path, text):
    """one compilation for all the cases of a run that need it"""
    vers = "@V1" in text or "@@V1" in text
    key = hashlib.sha1(text.encode()).hexdigest()[:16]
    cache = os.path.join(vk.scratch(), "libs")
    os.makedirs(cache, exist_ok=True)
    made = os.path.join(cache, key + ".so")
    if not os.path.exists(made):
        d = tempfile.mkdtemp(dir=vk.scratch())
        with open(os.path.join(d, "l.c"), "w") as fh:
            fh.write(text)
        cmd = ["gcc", "-w", "-shared", "-fPIC", "-nostdlib", "-o", os.path.join(d, "l.so"), os.path.join(d, "l.c")]
        if vers:
            with open(os.path.join(d, "map"), "w") as fh:
                fh.write("V1 { };\n")
            cmd.append("-Wl,--version-script=" + os.path.join(d, "map"))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise vk.Machinery("gcc: %s\n%s" % (p.stdout.decode()[-800:], text))
        os.replace(os.path.join(d, "l.so"), made)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(made, "rb") as a, open(path, "wb") as b:   # a file of its own: the loader knows files, not names
        b.write(a.read())


def lib_source(lib, who, fns):
    out = [TYPES]
    for name, kind in sorted((lib["sym"] or {}).items()):
        out.append(c_function(name, kind, who) if name in fns else c_variable(name, kind, who))
    for d in sorted(lib["need"]):
        out.append("extern int dep_%s; int *use_dep_%s = &dep_%s;" % (d, d, d))
    return "\n".join(out) + "\n"


def header(case):
    out = [TYPES]
    for d in case["decls"]:
        n = d["name"]
        if d["var"]:
            decl, init = VARS[n][0].format(""), VARS[n][1].format(i=9)
            out.append({"plain": "extern %s;", "static": "static %s = " + init + ";", "defined": "%s = " + init + ";",
                        "tentative": "%s;"}[d["form"]] % decl)
        elif n == "cos":
            out.append("double cos(double);")
        elif n == "abs":
            out.append("int abs(int);")
        else:
            out.append({"plain": "int %s(int x);", "extern": "extern int %s(int);", "noargs": "int %s();",
                        "defined": "int %s(int x) { return -x; }"}[d["form"]] % n)
    return "\n".join(out) + "\n"


def show(case):
    out = []
    for i, l in enumerate(case["libs"]):
        out.append("library %d: %s" % (i + 1, l["way"] if l["way"] in "mc" else "%s/%s (%s) %s %s" % (
            l["dir"], l["base"], l["way"], l["sym"] or {}, l["need"])))
    return "\n".join(out) + "\npreloaded: %s\n" % [case["files"][x] for x in case["pre"]] + header(case)


def check(case):
    """in a process of its own: libraries cannot be unloaded"""
    vk.import_ctypeslib()
    from ctypeslib import clang2py  # noqa: in this process, so that those of the cases have it
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                res = run(case)
            except vk.Machinery as x:
                res = x
            except BaseException as x:  # noqa
                import traceback
                tb = traceback.extract_tb(x.__traceback__)[-2:]
                res = ["the code failed with %s: %s (%s)" % (type(x).__name__, str(x)[:300],
                                                           "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb))]
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res if not isinstance(res, vk.Machinery) else ("machinery", str(res)), fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return ["the interpreter crashed"]
    res = pickle.loads(data)
    if isinstance(res, tuple):
        raise vk.Machinery(res[1])
    return res


def generate(case, src, libs, pre, d):
    ctypeslib = vk.import_ctypeslib()
    from ctypeslib.library import Library
    path = os.path.join(d, "h.h")
    with open(path, "w") as fh:
        fh.write(src)
    if all(l["way"] != "dl" for l in case["libs"]):
        from ctypeslib import clang2py
        argv = [path, "-k", "cdefstu", "-o", os.path.join(d, "m.py")]
        for l in libs:
            argv += ["-l", l]
        for p in pre:
            argv += ["-p", p]
        rc = clang2py.main(argv)
        if rc:
            raise RuntimeError("clang2py ended with %r" % rc)
        with open(os.path.join(d, "m.py")) as fh:
            return fh.read()
    out = io.StringIO()
    cfg = vk.config_for(preloaded_dlls=list(pre))
    cfg.searched_dlls = [Library(p, nm=None if l["way"] == "dl" else "nm") for p, l in zip(libs, case["libs"])]
    ctypeslib.translate_files(path, out, cfg)
    return out.getvalue()


@contextlib.contextmanager
def recording(loads):
    real = ctypes.CDLL

    class CDLL(real):
        def __init__(self, name, mode=ctypes.DEFAULT_MODE, *a, **k):
            loads.append((name, mode))
            super().__init__(name, mode, *a, **k)
    ctypes.CDLL = CDLL
    try:
        yield
    finally:
        ctypes.CDLL = real


def run(case):
    d = tempfile.mkdtemp(dir=vk.scratch())
    fns = {"fa", "fb", "fc", "lambda", "_fd", "__fe__", "_name", "_handle", "cos", "abs"}
    libs, who = [], {}
    for i, l in enumerate(case["libs"]):
        if l["way"] in ("m", "c"):
            libs.append(l["way"])
            continue
        p = os.path.join(d, l["dir"], l["base"])
        if p not in who:
            who[p] = i + 1
            compile_lib(p, lib_source(l, i + 1, fns))
        libs.append(p)
    for dep in case["pre"]:
        compile_lib(os.path.join(d, "dep", case["files"][dep] + ".so"), "int dep_%s = 7;%s" % (
            dep, " extern int dep_d1; int *use = &dep_d1;" if dep == "d2" else ""))
    pre = [os.path.join(d, "dep", case["files"][x] + ".so") for x in case["pre"]]
    if any(l["way"] == "dl" and l["need"] for l in case["libs"]):
        for p in pre:     # opening a library needs them too
            ctypes.CDLL(p, ctypes.RTLD_GLOBAL)
    text = generate(case, header(case), libs, pre, d)
    loads = []
    with recording(loads):
        ns = vk.load(text)
    out = []
    want = [libs[i - 1] for i in case["used"]]
    got = [name for name, mode in loads]
    if got[:len(pre)] != pre:
        out.append("the libraries to preload %s are not loaded first: %s" % (pre, got))
    if any(mode != ctypes.RTLD_GLOBAL for name, mode in loads[:len(pre)]):
        out.append("preloaded libraries are not loaded for all: %s" % loads)
    system = [g for g in got[len(pre):] if not g.startswith(d)]
    files = [g for g in got[len(pre):] if g.startswith(d)]
    if sorted(files) != sorted(w for w in want if w.startswith(d)):
        out.append("the module loads %s, expected %s" % (files, want))
    if len([x for x in system if x != "FIXME_STUB"]) != len({w for w in want if not w.startswith(d)}):
        out.append("the module loads the system libraries %s, expected %s" % (system, want))
    for name, b in (case["bind"] or {}).items():
        if name in VARS:
            out += variable(name, b, ns, libs, case)
        elif name not in ns:
            out.append("%s is not defined" % name)
        elif b == 0:
            if isinstance(ns[name], ctypes._CFuncPtr):
                out.append("%s is bound, no library has it" % name)
        else:
            out += function(name, b, ns[name], libs, who, case)
    return out


def function(name, b, fn, libs, who, case):
    if not isinstance(fn, ctypes._CFuncPtr):
        return ["%s is %r, expected a function of library %d" % (name, fn, b)]
    form = next(d["form"] for d in case["decls"] if d["name"] == name)
    want = {"cos": [ctypes.c_double]}.get(name, [] if form == "noargs" else [ctypes.c_int])
    if list(fn.argtypes) != want or fn.restype is not (ctypes.c_double if name == "cos" else ctypes.c_int):
        return ["%s has the arguments %s and the result %s" % (name, fn.argtypes, fn.restype)]
    if name == "cos":
        return [] if fn(0.0) == 1.0 else ["cos(0) is %r" % fn(0.0)]
    if name == "abs" and not libs[b - 1].startswith("/"):
        return [] if fn(-5) == 5 else ["abs(-5) is %r" % fn(-5)]
    got = fn(7)
    return [] if got == who[libs[b - 1]] * 100 + 7 else ["%s(7) is %r, expected the function of library %d" % (name, got, b)]


def variable(name, b, ns, libs, case):
    if b == 0:
        if name not in ns:
            return ["%s is not defined" % name]
        form = next(d["form"] for d in case["decls"] if d["name"] == name)
        want = {"va": 9, "vb": 9.5, "vd": [9, 2, 3], "class": 9}.get(name)
        if form in ("static", "defined") and want is not None and ns[name] != want:
            return ["%s is %r, it has the value %r and no library" % (name, ns[name], want)]
        return []
    t = CTYPES.get(name) or ns["struct_vrec"]
    v = ns.get(name)
    if type(v) is not t:
        return ["%s is %r, expected an object of type %s of library %d" % (name, v, t.__name__, b)]
    there = ctypes.addressof(t.in_dll(ctypes.CDLL(libs[b - 1]), name))
    return [] if ctypes.addressof(v) == there else ["%s is not the variable of library %d" % (name, b)]
