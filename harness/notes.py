"""Writes units with comments (Notes.tla) and translates them with the options."""
import os
import re
import shutil
import tempfile

import asking
import p_c05
import project
import render
import units
import vk

TEXTS = {
    "plain": "NOTE%d says something END%d", "quotes": "NOTE%d it's \"quoted\" and 'quoted' END%d", "triple": 'NOTE%d """ and \'\'\' end',
    "backslash": "NOTE%d \\ at C:\\Users\\new \\x41 \\N \\", "hash": "NOTE%d # not a comment # of it END%d",
    "long": "NOTE%d " + "words that go on and on " * 14 + "END%d", "unicode": "NOTE%d caf\u00e9 \u20ac \u4e2d\u6587 \u2028 \u0085 \u00a0 end END%d",
    "newlines": "NOTE%d first\nsecond line\nthird = 3 END%d", "percent": "NOTE%d %%s %%d %%(name)s %%%% 100%% END%d", "braces": "NOTE%d {} {0} {name} }{ END%d",
    "coding": "NOTE%d -*- coding: latin-1 -*- vim: set fileencoding=ascii :", "empty": "", "command": "\\brief NOTE%d of it\n\\param x the x\n@return y",
    "code": "NOTE%d\nimport os; os.nosuch()\nraise SystemExit(3)\n" + "__all__ = [] " * 9, "html": "NOTE%d <b>bold</b> &lt; <i",
    "parts": "NOTE%d first paragraph\n\nMORE%d second paragraph", "marks": "NOTE%d -- ** // ; , : ] ) } ( [ {",
    "tabs": "NOTE%d a\tb\x0cc\x0bd END%d"}
PATHS = {"plain": "p", "quote": "a\"b'c", "triple": 'a"""b', "backslash": "C:\\Users\\new\\x", "percent": "100%s%d", "accent": "caf\u00e9",
         "hash": "a#b", "space": "a b c", "braces": "a{0}b{"}


def text_of(note, i):
    t = TEXTS[note["text"]]
    return t % ((i,) * (t.count("%d") - t.count("%%d"))) if "%" in t else t


def lines_of(note, i):
    """the comment before a declaration, and the one after it"""
    s = note["style"]
    t = text_of(note, i).replace("*/", "* /")
    if s == "none":
        return "", ""
    if s in ("line", "lines", "slashes"):
        m = {"line": "/// ", "lines": "//! ", "slashes": "// "}[s]
        return "".join(m + (x[:-1] + "." if x.endswith("\\") else x) + "\n" for x in t.split("\n")), ""
    a = {"block": "/** ", "qt": "/*! ", "plain": "/* ", "after": "/**< "}[s]
    c = a + t.replace("\n", "\n * ") + " */"
    return ("", " " + c) if s == "after" else (c + "\n", "")


def within(d, comment):
    """a macro with comments in its body, and other macros that use it"""
    x, c, v = d["name"], comment, d["val"]
    return "\n".join(["#define %s %s%d" % (x, c, v), "#define sum_%s (1%s + %d%s)" % (x, c, v, c), '#define str_%s "a" %s"%d"' % (x, c, v),
                      "#define fun_%s(x)%s ((x)%s + %s)" % (x, c, c, x), "#define neg_%s -%s1.5" % (x, c), "#define empty_%s %s" % (x, c)])


class Noted(render.Unit):
    comments = True

    def decl(self, d):
        if d["d"] != "mac" or self.case["inner"] == "none":
            return super().decl(d)
        c = {"after": "/**< of\n  NOTE = 3\n of it */ ", "before": "/* \"a\" it's\n#b */", "plain": "/* c */ "}[self.case["inner"]]
        return within(d, c if self.comments else " ")

    def body(self, u, tag, r, ind=""):
        out = super().body(u, tag, r, ind)
        how = self.case["inner"] if self.comments else "none"
        if how == "after":
            out = re.sub(r";\n", "; /**< member of %s */\n" % (tag or "it"), out)
        elif how == "before":
            out = re.sub(r"^    (?=\S)", "    /// a \"member\"\n    ", out, flags=re.M)
        elif how == "plain":
            out = re.sub(r";\n", "; // of it\n", out)
        return out


def source(case, comments=True):
    """the text, and the lines of each declaration as (first, last)"""
    q = units.Quals(repr(case["target"]))
    r = Noted(case, qual=q, each=q.decl)
    r.comments = comments
    out, where, line = [], {}, 1
    for i, d in enumerate(case["decls"], 1):
        if d["d"] == "inner":
            continue
        before, after = lines_of(case["notes"][i - 1], i) if comments else ("", "")
        if d["d"] == "mac" and after:
            after = after.replace("\n", " ")
        t = r.decl(d)
        n = before.count("\n")
        where[i] = line + n, line + n + t.count("\n")
        # a blank line, for that a comment belongs to nothing else
        whole = before + t + after + "\n\n"
        out.append(whole)
        line += whole.count("\n")
    return "".join(out), where


def check(case):
    vk.import_ctypeslib()
    root = tempfile.mkdtemp(dir=vk.scratch())
    problems = []
    try:
        d = os.path.join(root, PATHS[case["place"]["path"]])
        os.mkdir(d)
        path = os.path.join(d, "source.c")
        text, where = source(case)
        with open(path, "wb") as fh:
            fh.write(text.encode("utf-8"))
        plain = os.path.join(root, "plain.c")
        with open(plain, "w") as fh:
            fh.write(source(case, False)[0])
        base = ["-k", "cdefmstu", "--clang-args=-DA=1%s-DB=2%s" % ("\n" if case["place"]["flags"] == "lines" else " ",
                                                                    " ".join([""] + render.TARGETS[case["target"]]))]
        argv = base + {True: [], False: []}[True]
        for o in case["opts"]:
            argv.append({"c": "-c", "d": "-d", "e": "-e", "v": "-v", "q": "-q", "debug": "--debug"}[o])
        mods = []
        for p, a in ((plain, base), (path, argv)):
            dest = os.path.join(root, "out.py")
            if case["place"]["ascii"] and p is path:
                status, out, err = process(a + ["-o", dest, p], root)
            else:
                status, out, err = asking.in_process(a + ["-o", dest, p], p, False)
            if status:
                return ["the translation%s is refused: %s" % (" with %s" % case["opts"] if p is path else "", err[-300:])]
            if out:
                problems.append("with -o the standard output has %r" % out[:100])
            with open(dest, "rb") as fh:
                data = fh.read()
            try:
                mods.append((data.decode("utf-8"), vk.load(data)))
            except Exception as x:
                return ["the module with %s fails with %s: %s" % (case["opts"], type(x).__name__, x)]
        names = [set(k for k in ns if not (k.startswith("__") and k.endswith("__"))) for _t, ns in mods]
        if names[0] != names[1]:
            problems.append("with %s the module %s" % (case["opts"], difference(names[0], names[1])))
        alls = [sorted(ns.get("__all__", ())) for _t, ns in mods]
        if alls[0] != alls[1]:
            problems.append("with %s __all__ %s" % (case["opts"], difference(set(alls[0]), set(alls[1]))))
        declared = p_c05.declared(case)
        m = [project.Meaning(ns, declared) for _t, ns in mods]
        for n in sorted(set(alls[0]) & names[0] & names[1]):
            a, b = m[0].name(n), m[1].name(n)
            if a != b:
                problems.append("%s is %s with %s, %s without" % (n, b, case["opts"], a))
        problems += said(case, mods[1][0], mods[1][1], where, path)
    finally:
        shutil.rmtree(root)
    return problems


def difference(a, b):
    return "; ".join(x for x in ["lacks %s" % sorted(a - b) if a - b else "", "has %s too" % sorted(b - a) if b - a else ""] if x) or "differs in order"


def process(argv, root):
    import subprocess
    env = dict(os.environ, PYTHONPATH=vk.REPO, TMPDIR=root, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", LC_ALL="C", PYTHONUTF8="0",
               PYTHONCOERCECLOCALE="0")
    p = subprocess.run([vk.PY, "-m", "ctypeslib.clang2py"] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, cwd=root, timeout=60)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def said(case, text, ns, where, path):
    """what the options promise"""
    out = []
    comments = " ".join(x.strip() for x in text.split("\n") if x.strip().startswith("#"))
    for i in case["said"]:
        if not re.search(r"\bNOTE%d\b" % i, comments):
            out.append("-c: the comment of %s (%d, %s) is not there" % (case["decls"][i - 1], i, case["notes"][i - 1]))
        elif "END%d" % i in text_of(case["notes"][i - 1], i) and not re.search(r"\bEND%d\b" % i, comments):
            out.append("-c: the end of the comment of %s (%d, %s) is not there" % (case["decls"][i - 1], i, case["notes"][i - 1]))
    for i in case["silent"]:
        if re.search(r"\b(NOTE|MORE|END)%d\b" % i, text):
            out.append("the comment %d (%s) is there" % (i, case["notes"][i - 1]))
    for i in case["located"]:
        if i not in where:
            continue
        first, last = where[i]
        if not any(re.search(r"^# %s[: ]%d$" % (re.escape(path), k), text, re.M) for k in range(first, last + 1)):
            out.append("-e: no location of %s (lines %d to %d)" % (case["decls"][i - 1], first, last))
    for i in case["described"]:
        d = case["decls"][i - 1]
        doc = getattr(ns.get(d["name"]), "__doc__", None) or ""
        if not ("%s(" % d["name"] in doc and "%s:%d" % (path, where[i][0]) in doc):
            out.append("-d: the docstring of %s is %r" % (d["name"], doc))
    return out


def show(case):
    return "options %s, %s\n%s" % (" ".join(sorted(case["opts"])), case["place"], source(case)[0])
