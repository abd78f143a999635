"""Writes the sources of Ways.tla and asks for their translation by every way."""
import ctypes
import io
import os
import shutil
import sys
import tempfile

import asking
import p_c05
import project
import render
import units
import vk

DIRS = {"d0": (1, ["h1", "h3"]), "d1": (2, ["h1"]), "d2": (3, ["h1", "h2"]), "d3": (4, ["h2", "h3"]), "d9": (5, [])}
FILES = {"plain": "source.c", "header": "source.h", "space": "a source.c", "accent": "src\u00e9.c", "relative": "source.c"}
WAYS = [("string", "namespace"), ("string", "stream"), ("file", "namespace"), ("file", "stream"), ("list", "namespace"), ("list", "stream"),
        ("command", "stdout"), ("command", "file"), ("stdin", "stdout"), ("stdin", "file")]


def header(h, n):
    g = h.upper()
    more = '#include "h2.h"\n' if h == "h1" else ""
    return "#ifndef %s_H\n#define %s_H\nenum { %s_from = %d };\nstruct S_%s { int a[%d]; };\n%s#endif\n" % (g, g, h, n, h, n, more)


def const(i, expr):
    return "enum probe_%d { probe_%d_is = %s };" % (i, i, expr)


def record(i, kind):
    return "struct probe_%d { char c; %s x; char d; };" % (i, kind)


def part(i, p):
    k = p["p"]
    if k == "def":
        return "#ifdef %s\n%s\n#else\n%s\n#endif" % (p["name"], const(i, "%s + 0" % p["name"]), const(i, "-1"))
    if k == "fun":
        return "#ifdef FUN\n%s\n#else\n%s\n#endif" % (const(i, "FUN(5)"), const(i, "5"))
    if k == "std":
        return "#ifdef __STDC_VERSION__\n%s\n#else\n%s\n#endif" % (const(i, "__STDC_VERSION__"), const(i, "0"))
    if k == "strict":
        return "#ifdef __STRICT_ANSI__\n%s\n#else\n%s\n#endif" % (const(i, "1"), const(i, "0"))
    if k in ("long", "pointer", "llong"):
        return record(i, {"long": "long", "pointer": "void *", "llong": "__extension__ long long"}[k])
    if k == "enum":
        return "enum small_%d { small_%d_v = 3 };\n%s" % (i, i, record(i, "enum small_%d" % i))
    if k == "char":
        return const(i, "(char)-1 < 0")
    if k == "wchar":
        return const(i, "sizeof(L'a')")
    if k == "inc":
        return "#include " + ('"%s.h"' if p["quoted"] else "<%s.h>") % p["h"]
    if k == "use":
        return "struct probe_%d { struct S_%s m; int last; };" % (i, p["h"])
    if k == "warn":
        return "#warning careful"
    if k == "forced":
        return "#ifdef FORCED\nstruct probe_%d { struct Forced f; };\n#else\nstruct probe_%d { int f; };\n#endif" % (i, i)
    return "struct probe_%d { int f; };" % i


def source(case):
    """the text, and its bytes in a file"""
    lines = [part(i, p) for i, p in enumerate(case["parts"], 1)]
    t = case["text"]
    lines.insert(len(lines) // 2, {"none": "", "ascii": "/* a comment */", "utf8": "/* caf\u00e9 \u20ac */", "latin1": "/* caf\u00e9 */"}[t["comment"]])
    if case.get("unit"):
        q = units.Quals(repr(case["unit"]["target"]))
        r = render.Unit(case["unit"], qual=q, each=q.decl)
        lines += [r.decl(d) for d in case["unit"]["decls"] if d["d"] != "inner"]
    text = "\n".join(lines) + ("\n" if t["last"] else "")
    if t["eol"] == "crlf":
        text = text.replace("\n", "\r\n")
    data = text.encode("latin1" if t["comment"] == "latin1" else "utf-8")
    if t["bom"] and t["comment"] != "latin1":
        data = b"\xef\xbb\xbf" + data
    return text, data


def options(case, root, cwd):
    out = []
    for o in case["opts"]:
        k = o["o"]
        if k == "D":
            out.append("-D%s%s" % (o["name"], "" if o["val"] == "none" else "=" + o["val"]))
        elif k == "U":
            out.append("-U" + o["name"])
        elif k == "Dfun":
            out.append("-DFUN(x)=((x)*%d)" % o["factor"])
        elif k in ("I", "isystem", "iquote"):
            path = os.path.join(root, o["dir"])
            if o["rel"]:
                path = os.path.relpath(path, cwd)
            out += ["-I" + path] if k == "I" else ["-" + k, path]
        elif k == "include":
            out += ["-include", os.path.join(root, "d9", "forced.h")]
        elif k == "std":
            out.append("-std=" + o["v"])
        elif k == "target":
            out += ["-target", o["v"]]
        elif k == "enums":
            out.append("-fshort-enums" if o["v"] == "short" else "-fno-short-enums")
        elif k == "char":
            out.append("-f%s-char" % o["v"])
        elif k == "wchar":
            out.append("-fshort-wchar" if o["v"] == "short" else "-fno-short-wchar")
        elif k == "pack":
            out.append("-fpack-struct=%d" % o["v"])
        elif k == "werror":
            out.append("-Werror" if o["v"] == "error" else "-Wno-error")
    return out


def place(case):
    root = tempfile.mkdtemp(dir=vk.scratch())
    for d, (n, hs) in DIRS.items():
        os.mkdir(os.path.join(root, d))
        for h in hs:
            with open(os.path.join(root, d, h + ".h"), "w") as fh:
                fh.write(header(h, n))
    with open(os.path.join(root, "d9", "forced.h"), "w") as fh:
        fh.write("#ifndef FORCED\n#define FORCED\nstruct Forced { int a, b, c; };\nenum { forced_value = 99 };\n#endif\n")
    os.mkdir(os.path.join(root, "tmp"))
    with open(os.path.join(root, "d0", FILES[case["text"]["file"]]), "wb") as fh:
        fh.write(source(case)[1])
    return root


def ask(case, way, root, process=False):
    """(ended, namespace or message, problems)"""
    import ctypeslib
    from ctypeslib.codegen import config
    entry, out = way
    problems = []
    cwd = os.path.join(root, case["cwd"])
    tmp = os.path.join(root, "tmp")
    path = os.path.join(root, "d0", FILES[case["text"]["file"]])
    if case["text"]["file"] == "relative":
        path = os.path.relpath(path, cwd)
    opts = options(case, root, cwd)
    dest = os.path.join(root, "tmp2.py")
    if os.path.exists(dest):
        os.unlink(dest)
    if entry in ("command", "stdin"):
        argv = ["-" if entry == "stdin" else path]
        if out == "file":
            argv[len(opts) % 2:0] = ["-o", dest]
        if case["includes"]:
            argv.append("-i")
        if case["tflag"] != "none":
            argv += ["-t", case["tflag"]]
        if opts:
            argv.append("--clang-args=" + " ".join(opts))
        if process:
            status, text, err = asking.as_process(argv, path, entry == "stdin", tmp, cwd=cwd)
        else:
            status, text, err = asking.in_process(argv, path, entry == "stdin")
        if status != 0:
            return "refused", err[-200:], problems
        if out == "file":
            if text:
                problems.append("with -o the standard output has %r" % text[:100])
            with open(dest, encoding="utf-8") as fh:
                text = fh.read()
        return "ok", text, problems
    cfg = config.CodegenConfig()
    if case["tflag"] != "none":
        cfg.clang_opts.extend(["-target", case["tflag"]])
    cfg.clang_opts.extend(opts)
    cfg.filter_location = not case["includes"]
    stream = io.StringIO() if out == "stream" else None
    try:
        if entry == "string":
            got = ctypeslib.translate(source(case)[0], stream, cfg)
        else:
            got = ctypeslib.translate_files([path] if entry == "list" else path, stream, cfg)
    except Exception as x:
        return "refused", "%s: %s" % (type(x).__name__, x), problems
    return "ok", stream.getvalue() if stream is not None else got, problems


def observed(ns, x):
    if x["kind"] == "absent":
        return "absent" if x["name"] not in ns and x["name"] not in ns.get("__all__", []) else repr(ns.get(x["name"]))[:80]
    name = x["name"] or ("probe_%d_is" if x["kind"] == "const" else "struct_probe_%d") % x["part"]
    if name not in ns:
        return "no " + name
    if x["kind"] == "const":
        return ns[name]
    return ctypes.sizeof(ns[name])


def check(case):
    vk.import_ctypeslib()
    root = place(case)
    tmp = os.path.join(root, "tmp")
    saved = tempfile.tempdir, os.environ.get("TMPDIR"), os.getcwd()
    problems = []
    first = None
    ways = list(WAYS) + [(e, o, True) for e, o in case.get("processes", [])]
    try:
        for way in ways:
            want = [e for e in case["expect"] if e["entry"] == way[0]][0]
            label = "%s to %s" % way[:2]
            tempfile.tempdir = tmp
            os.environ["TMPDIR"] = tmp
            os.chdir(os.path.join(root, case["cwd"]))
            try:
                ended, module, found = ask(case, way[:2], root, len(way) > 2)
                left = os.listdir(tmp)
            finally:
                os.chdir(saved[2])
                tempfile.tempdir = saved[0]
            problems += ["%s: %s" % (label, p) for p in found]
            if left:
                problems.append("%s: temporary files are left: %s" % (label, left))
                for f in left:
                    os.unlink(os.path.join(tmp, f))
            if (ended == "refused") != want["refused"]:
                problems.append("%s: is %s: %s" % (label, ended, module if ended == "refused" else "expected to be refused"))
                continue
            if ended == "refused":
                continue
            try:
                ns = vk.load(module) if isinstance(module, str) else dict(module)
            except Exception as x:
                problems.append("%s: the module fails with %s: %s" % (label, type(x).__name__, x))
                continue
            for x in want["has"]:
                got, exp = observed(ns, x), "absent" if x["kind"] == "absent" else x["val"]
                if got != exp:
                    problems.append("%s: %s %s is %r, expected %r" % (label, x["kind"], x["name"] or "of part %d" % x["part"], got, exp))
            if case.get("unit"):
                m = asking.meaning(ns, case["unit"])
                m.pop("extra", None)
                if first is None:
                    first = label, m
                else:
                    for n in sorted(set(m) | set(first[1])):
                        if m.get(n) != first[1].get(n):
                            problems.append("%s is %s by %s, %s by %s" % (n, m.get(n), label, first[1].get(n), first[0]))
                            break
    finally:
        tempfile.tempdir = saved[0]
        if saved[1] is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = saved[1]
        os.chdir(saved[2])
        shutil.rmtree(root)
    return problems


def show(case):
    return "options %s%s, in %s, %s, %s%s\n%s" % (
        " ".join(options(case, "/", "/" + case["cwd"])), " -t " + case["tflag"] if case["tflag"] != "none" else "", case["cwd"],
        case["text"], "with -i" if case["includes"] else "without -i", "", source(case)[0])
