"""C source for the cases of Vars.tla, and what its variables must be."""
import ctypes
import random
import re
import struct
from fractions import Fraction

import macros
import project
import render

CTYPE = dict(render.BASE, wchar="wchar_t", uenum="enum un", senum="enum sn")
HEAD = ("enum un { UN_A, UN_B = 7 };\nenum sn { SN_A = -3, SN_B };\nstruct rec { int a; double b; };\nunion uni { int a; float b; };\n"
        "struct inc;\nstatic int target_i; static double target_d; static struct rec target_s; static union uni target_u;\n"
        "static signed char target_c; static int target_f(int x);\nstatic struct rec target_a[2];\n"
        "#define LIM_INT __INT_MAX__\n#define LIM_LONG __LONG_MAX__\n#define LIM_LLONG __LONG_LONG_MAX__\n#define LIM_BITS __CHAR_BIT__\n"
        "#define LIM_SHRT __SHRT_MAX__\n#define LIM_ONE __STDC_HOSTED__\n#define PASTE(a, b) a##b\n")
SHAPES = {"struct": "struct rec {n}", "union": "union uni {n}", "anon": "struct {{ int x; }} {n}", "struct[]": "struct rec {n}[3]",
          "union[]": "union uni {n}[3]", "anon[]": "struct {{ int x; }} {n}[2]", "struct[][]": "struct rec {n}[2][3]",
          "struct*": "struct rec *{n}", "struct**": "struct rec **{n}", "struct*[]": "struct rec *{n}[2]", "struct(*)[]": "struct rec (*{n})[2]",
          "union*": "union uni *{n}", "int*": "int *{n}", "void*": "void *{n}", "char**": "char **{n}", "inc*": "struct inc *{n}",
          "inc*[]": "struct inc *{n}[2]", "fn*": "int (*{n})(int)", "fn*[]": "int (*{n}[2])(int)", "schar*": "signed char *{n}",
          "double*": "double *{n}"}
ADDR = {"struct*": "&target_s", "struct**": "(struct rec **) &target_s", "struct*[]": "{ &target_s, target_a + 1 }", "struct(*)[]": "&target_a",
        "union*": "&target_u", "int*": "&target_i", "void*": "(void *) &target_d", "fn*": "target_f", "fn*[]": "{ target_f, &target_f }",
        "schar*": "&target_c", "double*": "&target_d"}


def typedefs():
    out = []
    for b, c in CTYPE.items():
        if b not in ("i128", "u128"):
            out.append("typedef %s t_%s;" % (c, b))
    return "\n".join(out)


PASTED = re.compile(r"PASTE\(\w+, \w+\)$|\w+$")


def pasted(s, rnd):
    """a literal, now and then made of two tokens"""
    if len(s) > 1 and rnd.random() < 0.06:
        k = rnd.randrange(1, len(s))
        return "PASTE(%s, %s)" % (s[:k], s[k:])
    return s


def item(i, rnd, wide=False):
    """the text of an initialiser"""
    if i["ref"]:
        s = i["ref"]
    elif i["k"] == "int":
        s = expr(i["tree"], rnd)
    elif i["k"] == "flt":
        s = ("-" if i["m"][0] else "") + macros.float_literal(i["tree"]["form"], i["tree"]["suf"], i["m"][1], i["m"][2], rnd)
    else:
        m = i["m"]
        cut = rnd.randrange(len(m) + 1) if rnd.random() < 0.3 else len(m)
        parts = [m[:cut], m[cut:]] if cut < len(m) else [m]
        s = " ".join(("L" if wide else "") + macros.text(p, '"', rnd) for p in parts)
        return s
    return "(%s)" % s if rnd.random() < 0.15 and i["k"] != "str" else s


def expr(t, rnd):
    def lit(t):
        if t["op"] == "lit" and t["form"] == "char":
            return macros.text([macros.num(t["v"])], "'", rnd)
        if t["op"] == "lit":
            return pasted(macros.literal(t["form"], t["suf"], macros.num(t["v"]), rnd), rnd)
    return macros.expr(t, rnd, rnd.random() < 0.3, leaf=lit)


def declarator(l, name):
    if l["form"].startswith("obj "):
        return SHAPES[l["form"][4:]].format(n=name)
    t = ("t_" + l["b"]) if l["td"] else CTYPE[l["b"]]
    dims = "".join("[%s]" % (d or "") for d in l["dims"])
    if l["form"] == "charp":
        return "%s *%s" % (t, name)
    if l["form"] == "charpp":
        return "%s *%s%s" % (t, name, dims)
    if l["form"] == "chars2":
        return "%s %s%s[16]" % (t, name, dims)
    return "%s %s%s" % (t, name, dims)


def initialiser(l, rnd):
    if l["form"].startswith("obj "):
        sh = l["form"][4:]
        return {"": "", "brace": " = { %s }" % ("{ { 1 } }" if sh.endswith("[][]") else "{ 1 }" if sh.endswith("[]") else "1"),
                "zero": " = 0", "addr": " = " + ADDR.get(sh, "")}[l["b"]]
    its = [item(i, rnd, l["b"] == "wchar") for i in l["items"]]
    if l["form"] == "num" and l["dims"] == [] or l["form"] in ("chars", "charp"):
        s = its[0]
        return " = { %s }" % s if l["row"] else " = " + s
    if l["form"] in ("charpp", "chars2"):
        return " = { %s }" % ", ".join(its)
    if l["row"]:
        return " = { { %s }, { %s } }" % (", ".join(its[:l["row"]]), ", ".join(its[l["row"]:]))
    out = []
    for s, (lo, hi, named) in zip(its, l["pos"]):
        out.append(("[%d] = " % lo if lo == hi else "[%d ... %d] = " % (lo, hi)) + s if named else s)
    return " = { %s%s }" % (", ".join(out), rnd.choice(["", "", ","]))


def source(case):
    return written(case)[0]


def options(case):
    """what is given on the command line"""
    return written(case)[1]


def written(case):
    rnd = random.Random(repr(case["lines"])[:4000])
    out, opts = [HEAD], []
    if case["target"].endswith("win32"):
        out.append("typedef unsigned short wchar_t;")
    elif "aarch64" in case["target"] or "arm" in case["target"]:
        out.append("typedef unsigned int wchar_t;")
    else:
        out.append("typedef int wchar_t;")
    out.append(typedefs())
    for l in case["lines"]:
        n = l["name"]
        if l["kind"] == "enum":
            out.append("enum { %s = %s };" % (n, item(l["items"][0], rnd)))
        elif l["kind"] == "macro":
            i = l["items"][0]
            s = item(i, rnd)
            s = "(%s)" % s if (i["k"] == "int" and not i["chr"] or i["k"] == "flt" and s[0] == "-") and not PASTED.match(s) else s
            if l["store"] == "command" and "\n" not in s:
                opts.append("-D%s=%s" % (n, s))
            else:
                out.append("#define %s %s" % (n, s))
        else:
            store = l["store"]
            if l["form"].startswith("obj fn"):
                store = "static" if "static" in store else ""
            s = (store + " " if store else "") + declarator(l, n)
            out.append(s + (initialiser(l, rnd) if l["kind"] == "def" else "") + ";")
    return "\n".join(out) + "\n", opts


def asserts(case):
    """C that does not compile when a value is not what the specification says"""
    rnd = random.Random(1)
    out = []
    for l in case["lines"]:
        o = case["objs"].get(l["name"]) if case["objs"] else None
        if l["kind"] != "def" or l["form"] != "num" or l["dims"] != []:
            if l["kind"] == "def" and l["form"] in ("num", "chars", "charpp"):
                size = "sizeof(%s) / sizeof(%s)" % (CTYPE[l["b"]] if l["form"] != "charpp" else "char *", CTYPE["char"])
                out.append("_Static_assert(sizeof(%s) == %d * sizeof(%s), \"%s\");" % (
                    l["name"], prod(o["dims"]), "char *" if l["form"] == "charpp" else CTYPE[l["b"]], l["name"]))
            continue
        i, v = l["items"][0], o["val"][0]
        if v["k"] in ("int", "chr") and l["b"] not in ("float", "double", "ldouble"):
            out.append("_Static_assert((%s) (%s) == (%s) %s, \"%s\");" % (
                CTYPE[l["b"]], item(i, rnd), CTYPE[l["b"]], macros.clang_number(macros.num(v["v"])), l["name"]))
    return "\n".join(out) + "\n"


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def candidates(v, base):
    """the values that a module may have for a value of the specification"""
    if v["k"] == "int":
        xs = [macros.num(v["v"]), macros.num(v["as"])]
        return xs + [chr(0)] * (base in ("char", "uchar") and xs[0] == 0)
    if v["k"] == "chr":
        return [chr(macros.num(v["v"]))]
    if v["k"] == "flt":
        neg, m, e = v["m"]
        x = (-1) ** neg * float(Fraction(m) * Fraction(10) ** e)
        try:
            return [x, struct.unpack("f", struct.pack("f", x))[0]] if base == "float" else [x]
        except OverflowError:
            return [x]
    return ["".join(map(chr, v["m"]))]


def same(got, v, base):
    want = candidates(v, base)
    if v["k"] in ("chr", "str"):
        return isinstance(got, str) and got in want
    return not isinstance(got, bool) and isinstance(got, (int, float, str)) and any(
        got == w and (isinstance(got, str) == isinstance(w, str)) for w in want)


def wanted(v, base):
    return " or ".join(sorted({repr(x) for x in candidates(v, base)}))


def objtype(sh, ns):
    s, u = ns.get("struct_rec"), ns.get("union_uni")
    P = ctypes.POINTER
    return {"struct": lambda: s, "union": lambda: u, "struct[]": lambda: s * 3, "union[]": lambda: u * 3, "struct[][]": lambda: s * 3 * 2,
            "struct*": lambda: P(s), "struct**": lambda: P(P(s)), "struct(*)[]": lambda: P(s * 2), "union*": lambda: P(u),
            "int*": lambda: P(ctypes.c_int), "void*": lambda: P(None), "char**": lambda: P(P(ctypes.c_char)),
            "inc*": lambda: P(ns["struct_inc"]), "fn*": lambda: ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int),
            "schar*": lambda: P(ctypes.c_byte), "double*": lambda: P(ctypes.c_double)}[sh]()


def problem(o, name, ns, host):
    """what is wrong with a variable, if anything"""
    if name not in ns:
        return "%s is not defined" % name
    if name not in ns["__all__"]:
        return "%s is not in __all__" % name
    got = ns[name]
    if o["form"].startswith("obj "):
        sh = o["form"][4:]
        if sh.endswith("*[]"):
            return None if isinstance(got, list) and all(x is None for x in got) else "%s is %r, expected a list of no addresses" % (name, got)
        if sh in ("anon", "anon[]"):
            t = got if isinstance(got, type) else type(got)
            p = project.proj(t)
            if sh == "anon[]":
                if p["k"] != "arr" or p["n"] != 2:
                    return "%s is %r, expected an array of 2 structures" % (name, got)
                p = project.proj(p["of"])
            if p["k"] != "rec" or p["u"] != "struct" or [f[0] for f in p["cls"]._fields_] != ["x"]:
                return "%s is %s, expected the structure it is declared with" % (name, project.show(t))
            return None
        t = got if isinstance(got, type) else type(got)
        if not host and ("*" in sh):
            ok = project.proj(t)["k"] in ("ptr", "fn")
        else:
            w = objtype(sh, ns)
            ok = t is w or project.show(t) == project.show(w)
        return None if ok else "%s is %r, expected an object or type %s" % (name, got, sh)
    if not o["done"] or o["val"] == []:
        if o["form"] == "charp":
            return None if got is None or not isinstance(got, str) else "%s is %r, expected no string" % (name, got)
        if o["dims"]:
            return None if got in ([], "") else "%s is %r, expected an array without values" % (name, got)
        zero = {"k": "int", "v": [0] * 10, "as": [0] * 10}
        return None if same(got, zero, o["b"]) else "%s is %r, expected 0" % (name, got)
    if o["form"] in ("charpp", "chars2"):
        want = ["".join(map(chr, v["m"])) for v in o["val"]]
        return None if got == want else "%s is %r, expected %r" % (name, got, want)
    if o["dims"] == [] or o["form"] == "chars":
        return None if same(got, o["val"][0], o["b"]) else "%s is %r, expected %s" % (name, got, wanted(o["val"][0], o["b"]))
    rows = [o["val"]]
    if len(o["dims"]) == 2:
        rows = [o["val"][i * o["dims"][1]:(i + 1) * o["dims"][1]] for i in range(o["dims"][0])]
        if not isinstance(got, list) or len(got) > 2:
            return "%s is %r, expected 2 rows" % (name, got)
        got = got + [[]] * (2 - len(got))
    else:
        got = [got]
    for r, g in zip(rows, got):
        if not isinstance(g, list) or len(g) > len(r) or not all(same(x, v, o["b"]) for x, v in zip(list(g) + [0] * len(r), r)):
            return "%s is %r, expected %s" % (name, ns[name], [[wanted(v, o["b"]) for v in r] for r in rows])
    return None
