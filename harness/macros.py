"""C source for the cases of Macros.tla, and the values they must have."""
import random
from fractions import Fraction

PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 7, "^": 6, "|": 5}
# bodies without a value in Python; %s is the name of the macro
JUNK = {"function": "#define {n}(x) ((x) + 1)", "function0": "#define {n}() 5", "variadic": "#define {n}(f, ...) f(__VA_ARGS__)",
        "cast": "#define {n} ((int) 5)", "castptr": "#define {n} ((void *) 0)", "type": "#define {n} unsigned long",
        "keyword": "#define {n} static", "attribute": "#define {n} __attribute__((packed))", "call": "#define {n} (5)(6)",
        "open": "#define {n} (", "close": "#define {n} )", "brace": "#define {n} {{ 1, 2 }}", "semicolon": "#define {n} ;",
        "do": "#define {n} do {{ }} while (0)", "comma": "#define {n} ,", "dots": "#define {n} ...", "hash": "#define {n}(x) #x",
        "paste": "#define {n}(a, b) a ## b", "ternary": "#define {n} (1 ? 2 : 3)", "not": "#define {n} (!1)",
        "and": "#define {n} (1 && 0)", "divzero": "#define {n} (1 / 0)", "self": "#define {n} {n}",
        "selfcall": "#define {n}(x) {n}(x)", "sizeof": "#define {n} (sizeof(int) * 2)", "undefined": "#define {n} not_defined_anywhere",
        "string_plus": '#define {n} ("abc" + 1)', "string_at": '#define {n} ("abc"[5])', "for": "#define {n}(i) for (i = 0; i < 5; i++)",
        "quote": "#define {n} isn't", "equal": "#define {n} = 5", "colon": "#define {n} : 3", "lambda": "#define {n} lambda",
        "float_and": "#define {n} (1.5 & 1)", "neg_shift": "#define {n} (1 << -1)", "stringize_use": "#define {n}(a) #a \" x\"",
        "string_undefined": '#define {n} "a" not_defined "b"', "char_plus": "#define {n} ('a' + 1)", "compound": "#define {n} ((struct s) {{ 1 }})",
        "number": "#define {n} 1.2.3", "member": "#define {n} a.b->c", "pragma": '#define {n} _Pragma("once")', "builtin": "#define {n} __FILE__",
        "line": "#define {n} __LINE__", "bad_escape": '#define {n} "\\x41"L"b" 5', "string_int": '#define {n} "%d" 5', "int_int": "#define {n} 5 6"}


def num(bytes_):
    return int.from_bytes(bytes(bytes_), "little", signed=True)


def suffix(suf, rnd):
    if suf == "":
        return ""
    ell = {"u": "", "l": "l", "ul": "l", "ll": "ll", "ull": "ll"}[suf]
    ell = ell.upper() if rnd.random() < 0.5 else ell
    u = rnd.choice("uU") if "u" in suf else ""
    return rnd.choice([u + ell, ell + u])


def literal(form, suf, v, rnd):
    if form == "dec":
        s = str(v)
    elif form == "hex":
        s = rnd.choice(["0x%x", "0x%X", "0X%x", "0x%08x"]) % v
    elif form == "oct":
        s = "0%o" % v if v else "0"
    else:
        s = rnd.choice(["0b", "0B"]) + bin(v)[2:]
    return s + suffix(suf, rnd)


def expr(t, rnd, full, level=0, leaf=lambda t: None):
    if leaf(t):
        return leaf(t)
    if t["op"] == "lit":
        return literal(t["form"], t["suf"], num(t["v"]), rnd)
    if t["op"] == "ref":
        return t["name"]
    if t["op"] == "un":
        s = expr(t["kids"][0], rnd, full, 11, leaf)
        sep = " " if s[0] in "+-~" or rnd.random() < 0.2 else ""
        return (t["name"] + sep + s) if not full else "(%s%s%s)" % (t["name"], sep, s)
    p = PREC[t["name"]]
    a, b = expr(t["kids"][0], rnd, full, p, leaf), expr(t["kids"][1], rnd, full, p + 1, leaf)
    sp = rnd.choice([" ", " ", ""])
    if b[0] in "+-" or not b[0].isalnum():
        sp = " "
    s = a + sp + t["name"] + sp + b
    return "(%s)" % s if full or p < level else s


def float_literal(form, suf, m, e, rnd):
    f = Fraction(m) * Fraction(10) ** e
    if form == "hex":
        x = float(f)
        s = x.hex().rstrip("+0") if False else x.hex()
        return s + {"": "", "f": "f", "l": "L"}[suf]
    if form == "lead":
        s = "." + str(m).rjust(-e, "0")
    elif form == "trail":
        s = str(m * 10 ** e) + "."
    elif form == "exp":
        s = "%s%s%d" % (rnd.choice([str(m), "%d.0" % m, "%d." % m]), rnd.choice("eE"), e)
        if rnd.random() < 0.3 and e >= 0:
            s = s.replace("e", "e+").replace("E", "E+")
    else:
        s = str(m * 10 ** e) + ".0" if e >= 0 else str(m).rjust(1 - e, "0")
        if e < 0:
            s = s[:e] + "." + s[e:]
    return s + {"": "", "f": rnd.choice("fF"), "l": rnd.choice("lL")}[suf]


SIMPLE = {10: "\\n", 9: "\\t", 0: "\\0", 7: "\\a", 27: "\\e", 92: "\\\\", 34: '\\"', 39: "\\'", 63: "\\?"}


def char(c, nxt, quote, rnd):
    """one character of a literal; nxt: the code that follows"""
    digit = nxt is not None and chr(nxt) in "0123456789abcdefABCDEF"
    if c > 126:
        return chr(c)
    if c in SIMPLE:
        how = rnd.random()
        if c == 0 and digit:
            return "\\000"
        if how < 0.3 and not digit:
            return "\\x%02x" % c
        if how < 0.5:
            return "\\%03o" % c
        if chr(c) in "'\"?" and chr(c) != quote and how < 0.8:
            return chr(c)
        return SIMPLE[c]
    if rnd.random() < 0.1 and not digit:
        return "\\x%x" % c if c > 15 else "\\x0%x" % c
    return chr(c)


def text(codes, quote, rnd):
    return quote + "".join(char(c, codes[i + 1] if i + 1 < len(codes) else None, quote, rnd) for i, c in enumerate(codes)) + quote


def wrap(s, k):
    return "(" * k + s + ")" * k


def body(l, rnd):
    k = l["kind"]
    if k == "int":
        return wrap(l["sign"] + literal(l["form"], l["suf"], num(l["v"]), rnd), l["paren"])
    if k == "float":
        return wrap(l["sign"] + float_literal(l["form"], l["suf"], l["m"][0], l["m"][1], rnd), l["paren"])
    if k == "char":
        return wrap(l["suf"] + text(l["m"], "'", rnd), l["paren"])
    if k == "str":
        out = [p["name"] or l["suf"] + text(p["m"], '"', rnd) for p in l["pieces"]]
        s = out[0]
        for p in out[1:]:
            gap = rnd.choice([" ", " ", "", " /* and */ ", " \\\n  ", "\t"])
            if gap == "" and (p[0] != '"' or s[-1] != '"'):
                gap = " "
            s += gap + p
        return wrap(s, l["paren"])
    if k == "expr":
        return wrap(expr(l["tree"], rnd, rnd.random() < 0.3), l["paren"])
    if k == "alias":
        return wrap(l["tree"]["name"], l["paren"])
    return ""


def define(l, rnd):
    if l["kind"] == "junk":
        return JUNK[l["form"]].format(n=l["name"])
    b = body(l, rnd)
    if b == "":
        return "#define %s%s" % (l["name"], rnd.choice(["", " ", " /* nothing */"]))
    tail = rnd.choice(["", "", "", " /* a comment */", " // a comment", "   "])
    head = rnd.choice(["#define %s %s", "#define %s %s", "#define %s %s", "# define %s\t%s", "#define %s \\\n  %s", "#define %s /* c */ %s"])
    return head % (l["name"], b) + tail


def source(case):
    rnd = random.Random(repr(case["lines"])[:4000])
    out = []
    for l in case["lines"]:
        if l["kind"] == "use":
            n, x = l["name"], l["tree"]["name"]
            out.append({"enum": "enum E_%s { K_%s = %s };" % (n, n, x), "array": "typedef int T_%s[%s];" % (n, x),
                        "bits": "struct S_%s { int f : %s; };" % (n, x),
                        "var": "%slong long v_%s = %s;" % ("unsigned " if num(l["v"]) >= 0 else "", n, x)}[l["form"]])
            continue
        d, g = define(l, rnd), l["guard"]
        if g == "if0":
            out += ["#if 0", d, "#endif"]
        elif g == "ifndef" or g == "skip":
            out += ["#ifndef " + l["name"], d, "#endif"]
        elif g == "else":
            out += [rnd.choice(["#ifdef __cplusplus", "#if defined(nowhere)", "#if 0"]), "#define %s 99" % l["name"], "#else", d, "#endif"]
        elif g == "undef":
            out += ["#undef " + l["name"], d]
        else:
            out.append(d)
    out.append("int the_end(void);")
    return "\n".join(out) + "\n"


def clang_number(v):
    return "0x%xULL" % v if v >= 0 else "(-%dLL - 1)" % (-v - 1)


def asserts(case):
    """C that does not compile when a value is not what the specification says"""
    out = []
    wide = {l["name"]: l for l in case["lines"]}
    for n, e in (case["env"] or {}).items():
        if e["k"] == "int":
            v = num(e["v"])
            t = {"i": "int", "u": "unsigned", "l": "long", "ul": "unsigned long", "ll": "long long", "ull": "unsigned long long"}[e["t"]]
            out.append("_Static_assert((%s) == (%s)%s && _Generic((%s), %s: 1, default: 0), \"%s\");" % (
                n, t, clang_number(v), n, t, n))
        elif e["k"] == "float":
            x = value(e)
            out.append("_Static_assert((double) (%s) == %s, \"%s\");" % (n, x.hex() if x >= 0 else "(-%s)" % abs(x).hex(), n))
        elif e["k"] == "char":
            out.append("_Static_assert((%s) == %d, \"%s\");" % (n, e["m"][0], n))
        elif e["k"] == "str" and e["open"]:
            data = "".join(map(chr, e["m"])).encode() + b"\0"
            out.append("_Static_assert(sizeof(%s) == %d && !__builtin_memcmp(%s, \"%s\", %d), \"%s\");" % (
                n, len(data), n, "".join("\\%03o" % b for b in data[:-1]), len(data), n))
    return "\n".join(out) + "\n"


def value(e):
    """the Python value of a macro"""
    if e["k"] == "int":
        return num(e["v"])
    if e["k"] == "float":
        neg, m, x = e["m"]
        return (-1) ** neg * float(Fraction(m) * Fraction(10) ** x)
    if e["k"] == "char":
        return chr(e["m"][0])
    if e["k"] == "str":
        return "".join(map(chr, e["m"]))
    return True
