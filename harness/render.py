"""Abstract declarations of the specification -> C source."""
import zlib

BASE = {"char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short",
        "ushort": "unsigned short", "int": "int", "uint": "unsigned int", "long": "long",
        "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long",
        "float": "float", "double": "double", "ldouble": "long double", "bool": "_Bool",
        "i128": "__int128", "u128": "unsigned __int128"}

TARGETS = {"x86_64-linux": [], "i386-linux": ["-target", "i386-linux"],
           "x86_64-win32": ["-target", "x86_64-pc-win32"],
           "i386-win32": ["-target", "i386-win32"],
           "arm-linux": ["-target", "arm-linux-gnueabihf"],
           "aarch64-linux": ["-target", "aarch64-linux-gnu"]}


def parameter(t, star=True):
    """an array parameter is a pointer, however its length is written"""
    if t["k"] != "a" or t.get("open") or not t["n"]:
        return t
    how = zlib.crc32(repr(t).encode()) % 6 if star else zlib.crc32(repr(t).encode()) % 5
    return t if how > 3 or how == 3 and not star else dict(t, dim=("", "static %d", "const %d", "*")[how] % ((t["n"],) if how in (1, 2) else ()))


def variable(t, length):
    """an array of unknown length behind a pointer may have that of an earlier parameter"""
    if t["k"] in ("p", "a") and length:
        k = "to" if t["k"] == "p" else "of"
        if t["k"] == "p" and t[k].get("open") and zlib.crc32(repr(t).encode()) % 3:
            return dict(t, to={"k": "a", "of": t[k]["of"], "n": 0, "dim": length})
        return dict(t, **{k: variable(t[k], length)})
    return t


def none(of):
    """no parameters: with a prototype or without, the same for the same thing"""
    return ("void", "")[zlib.crc32(repr(of).encode()) % 2]


class Unit:
    """Renders the declarations of one case. qual(i) gives the qualifiers of
    the i-th declarator: they never change what a module must contain."""

    def __init__(self, case, qual=None, each=None):
        self.each = each or (lambda d: None)
        self.star = ""
        self.case = case
        self.anon = case.get("anon") or []
        self.rec = case.get("rec") or {}
        self.qual = qual or (lambda: "")

    def declare(self, t, name, define=False):
        k = t["k"]
        if k in ("b", "v", "r", "e", "t", "x"):
            base = self.body(t["u"], t["tag"], self.rec[t["tag"]]) if define else self.base(t)
            return (base + " " + name) if name else base
        if k == "p":
            to = t["to"]
            inner = "*" + self.qual() + name
            if to["k"] in ("a", "f"):
                inner = "(" + inner + ")"
            return self.declare(to, inner, define)
        if k == "a":
            return self.declare(t["of"], "%s[%s]" % (name, "" if t.get("open") else t.get("dim", t["n"])), define)
        if k == "f":
            args = ", ".join(self.declare(variable(parameter(a), self.star), "") for a in t["args"]) or none(t["res"])
            return self.declare(t["res"], "%s(%s)" % (name, args))
        raise ValueError(t)

    def base(self, t):
        k = t["k"]
        if k == "b":
            return self.qual() + BASE[t["n"]]
        if k == "v":
            return "void"
        if k == "r":
            return t["u"] + " " + t["tag"]
        if k == "e":
            return "enum " + t["tag"]
        if k == "t":
            return t["name"]
        return self.body(t["u"], "", self.anon[t["id"] - 1])

    def body(self, u, tag, r, ind=""):
        attrs = []
        if r["pack"] == 1:
            attrs.append("packed")
        if r["al"]:
            attrs.append("aligned(%d)" % r["al"])
        a = (" __attribute__((%s))" % ", ".join(attrs)) if attrs else ""
        out = []
        for f in r["fields"]:
            al = "_Alignas(%d) " % f["fal"] if f["fal"] else ""
            d = self.declare(f["ty"], f["name"], f["def"])
            if f["w"] >= 0:
                d += " : %d" % f["w"]
            out.append("    %s%s;\n" % (al, d))
        return "%s%s %s{\n%s}" % (u, a, tag + " " if tag else "", "".join(out))

    def decl(self, d):
        self.each(d)
        k = d["d"]
        if k == "fwd":
            return "%s %s;" % (d["u"], d["tag"])
        if k == "rec":
            r = self.rec[d["tag"]]
            s = self.body(d["u"], d["tag"], r) + ";"
            if r["pack"] in (2, 4, 8):
                s = "#pragma pack(push, %d)\n%s\n#pragma pack(pop)" % (r["pack"], s)
            return s
        if k == "td":
            return "typedef %s;" % self.declare(d["ty"], d["name"], bool(d.get("def")))
        if k == "en":
            return "enum %s { %s };" % (d["tag"], ", ".join("%s = %s" % (i["name"], i["val"]) for i in d["items"]))
        if k == "fn":
            length = "p0" if d["args"] and d["args"][0]["k"] == "b" and d["args"][0]["n"] in ("int", "uint", "long", "ulong", "short") else ""
            # two typedefs of a name must have the same type, two functions only a compatible one
            self.star = "*"
            args = ", ".join(self.declare(variable(parameter(a, False), length if i else ""), "p%d" % i) for i, a in enumerate(d["args"])) or none(d["name"])
            self.star = ""
            return self.declare(d["res"], "%s(%s)" % (d["name"], args)) + ";"
        if k == "var":
            return "%s = %s;" % (self.declare(d["ty"], d["name"]), d.get("text", d["val"]))
        if k == "ext":
            return "extern %s;" % self.declare(d["ty"], d["name"])
        if k == "obj":
            return "%s%s;" % ("extern " if d["ext"] else "", self.declare(d["ty"], d["name"]))
        if k == "mac":
            return "#define %s %s" % (d["name"], d.get("text", d["val"]))
        raise ValueError(d)

    def source(self):
        return "\n".join(self.decl(d) for d in self.case["decls"] if d["d"] != "inner") + "\n"
