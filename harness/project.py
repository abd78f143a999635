"""Python objects of a generated module -> the abstract ctypes types of the
specification (operator Proj of CTypes.tla), and their comparison."""
import ctypes
import re

import _ctypes

INTS = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (ctypes.sizeof(ctypes.c_long), True), "L": (ctypes.sizeof(ctypes.c_long), False),
        "q": (8, True), "Q": (8, False)}


def proj(t):
    if t is None or t is type(None):
        return {"k": "void"}
    if not isinstance(t, type):
        return {"k": "not a type", "is": repr(t)[:60]}
    if issubclass(t, _ctypes._SimpleCData):
        if hasattr(t, "_subtype_"):
            return {"k": "ptr", "fake": ctypes.sizeof(t), "to": t._subtype_}
        c = t._type_
        if c in INTS:
            return {"k": "int", "z": INTS[c][0], "s": INTS[c][1]}
        return {"P": {"k": "ptr", "to": None}, "c": {"k": "char"}, "?": {"k": "bool"},
                "f": {"k": "flt", "z": 4}, "d": {"k": "flt", "z": 8},
                "g": {"k": "ld", "z": ctypes.sizeof(ctypes.c_longdouble)}}.get(c, {"k": "simple " + c})
    if issubclass(t, _ctypes._Pointer):
        return {"k": "ptr", "to": t._type_}
    if issubclass(t, _ctypes.Array):
        return {"k": "arr", "n": t._length_, "of": t._type_}
    if issubclass(t, _ctypes.CFuncPtr):
        return {"k": "fn", "res": t._restype_, "args": list(t._argtypes_)}
    if issubclass(t, _ctypes.Union):
        return {"k": "rec", "u": "union", "cls": t}
    if issubclass(t, _ctypes.Structure):
        return {"k": "rec", "u": "struct", "cls": t}
    return {"k": "unknown", "is": repr(t)[:60]}


def show(t):
    p = proj(t)
    if "to" in p:
        return "ptr(%s)" % show(p["to"])
    if "of" in p:
        return "%s[%d]" % (show(p["of"]), p["n"])
    if "cls" in p:
        return "%s %s" % (p["u"], p["cls"].__name__)
    if p["k"] == "fn":
        return "fn(%s;%s)" % (show(p["res"]), ",".join(map(show, p["args"])))
    return "%s%s%s" % (p["k"], p.get("z", ""), {True: "s", False: "u"}.get(p.get("s"), ""))


def is_bits(cls, name):
    """the member is declared with a width, in the class or an unnamed member of it"""
    for f in getattr(cls, "_fields_", ()):
        if f[0] == name:
            return len(f) == 3
    return any(is_bits(f[1], name) for f in getattr(cls, "_fields_", ()) if f[0] in getattr(cls, "_anonymous_", ()))


def bitpos(cls, name):
    """absolute position and size in bits of a member, from its descriptor"""
    f = getattr(cls, name)
    if not hasattr(f, "offset") or not hasattr(f, "size"):
        raise AttributeError("no descriptor of member %s" % name)
    if f.size >> 16 and is_bits(cls, name):
        return 8 * f.offset + (f.size & 0xffff), f.size >> 16
    return 8 * f.offset, 8 * f.size


class Compare:
    """Compares abstract types with real ones. ns is the namespace of the
    module, exp is the Expected of the specification, ptr the pointer size."""

    def __init__(self, ns, exp, ptr):
        self.ns, self.exp, self.ptr = ns, exp, ptr
        self.problems = []
        self.anon_seen = {}

    def bad(self, path, fmt, *a):
        self.problems.append("%s: %s" % (path, fmt % a if a else fmt))

    def type(self, e, t, path, deep=0):
        """e: expected projection; t: a ctypes type"""
        a = proj(t)
        k = e["k"]
        if k == "ld":
            ok = ((a["k"] == "ld" and a["z"] == e["z"]) or (a["k"] == "flt" and a["z"] == e["z"]) or
                  (a["k"] == "arr" and proj(a["of"]) == {"k": "int", "z": 1, "s": False} and a["n"] == e["z"]))
            if not ok:
                self.bad(path, "expected a long double of %d bytes, got %s", e["z"], show(t))
            return
        if k == "ptr":
            if a["k"] != "ptr":
                return self.bad(path, "expected a pointer, got %s", show(t))
            if ctypes.sizeof(t) != self.ptr:
                return self.bad(path, "expected a pointer of %d bytes, got %d", self.ptr, ctypes.sizeof(t))
            return self.type(e["to"], a["to"], path + ".*", deep + 1)
        if k == "arr":
            if a["k"] != "arr" or a["n"] != e["n"]:
                return self.bad(path, "expected an array of %d, got %s", e["n"], show(t))
            return self.type(e["of"], a["of"], path + "[]", deep)
        if k == "fn" and a.get("fake") == self.ptr and proj(a["to"])["k"] == "fn":
            a, t = proj(a["to"]), a["to"]  # a pointer of a target with another pointer size
        if k == "fn":
            if a["k"] != "fn":
                return self.bad(path, "expected a function, got %s", show(t))
            self.type(e["res"], a["res"], path + "()", deep + 1)
            if len(a["args"]) != len(e["args"]):
                return self.bad(path, "expected %d arguments, got %d", len(e["args"]), len(a["args"]))
            for i, (x, y) in enumerate(zip(e["args"], a["args"])):
                self.type(x, y, "%s(%d)" % (path, i), deep + 1)
            return
        if k == "rec":
            name = "%s_%s" % (e["u"], e["tag"])
            if a["k"] != "rec" or a["u"] != e["u"] or a["cls"] is not self.ns.get(name):
                return self.bad(path, "expected the class %s, got %s", name, show(t))
            return
        if k == "anon":
            if a["k"] != "rec" or a["u"] != e["u"]:
                return self.bad(path, "expected an anonymous %s, got %s", e["u"], show(t))
            seen = self.anon_seen.get(e["id"])
            if seen is None:
                self.anon_seen[e["id"]] = a["cls"]
                self.record(self.exp["anon"][e["id"] - 1], a["cls"], path)
            elif seen is not a["cls"]:
                self.bad(path, "two classes for the same anonymous %s", e["u"])
            return
        a.pop("fake", None)
        if a != e:
            self.bad(path, "expected %s, got %s", e, show(t))

    def record(self, e, cls, path, types=True, bits=True):
        p = proj(cls)
        if p["k"] != "rec" or p["u"] != e["u"]:
            return self.bad(path, "expected a %s, got %s", e["u"], show(cls))
        if ctypes.sizeof(cls) != e["size"]:
            self.bad(path, "sizeof is %d, expected %d", ctypes.sizeof(cls), e["size"])
        fields = getattr(cls, "_fields_", ())
        direct = {f[0]: f for f in fields}
        want = [f["name"] for f in e["flat"]]
        flat = flat_fields(cls, want)
        got = [f[0] for f in flat]
        if got != want:
            self.bad(path, "members are %s, expected %s", got, want)
        for f in e["flat"]:
            if f["name"] not in got:
                continue
            where = "%s.%s" % (path, f["name"])
            try:
                off, size = bitpos(cls, f["name"])
            except AttributeError as x:
                self.bad(where, "%s", x)
                continue
            if (off, size) != (f["off"], f["bits"]):
                self.bad(where, "is %d bits at bit %d, expected %d at %d", size, off, f["bits"], f["off"])
            ty = dict((g[0], g) for g in flat)[f["name"]]
            if f["w"] >= 0 and bits:
                if len(ty) != 3:
                    self.bad(where, "is not a bit-field")
                    continue
                a = proj(ty[1])
                ex = f["proj"]
                want_s = ex.get("s", ex["k"] == "char")
                if a["k"] != "int" or a["s"] != want_s:
                    self.bad(where, "expected a %s bit-field, got %s", "signed" if want_s else "unsigned", show(ty[1]))
            elif f["w"] < 0 and types:
                if len(ty) != 2:
                    self.bad(where, "is a bit-field")
                self.type(f["proj"], ty[1], where)


class Meaning:
    """What the names of a module stand for, in a form that can be compared with
    that of another module. declared: the names that come from the source; the
    classes that have none of them (of anonymous records) are described in place."""

    def __init__(self, ns, declared):
        self.ns = ns
        self.named = {id(ns[n]): n for n in sorted(declared) if isinstance(ns.get(n), type)
                      and issubclass(ns[n], (ctypes.Structure, ctypes.Union)) and n.startswith(("struct_", "union_"))}
        self.stack = []
        self.reached = set()

    def type(self, t):
        p = proj(t)
        k = p["k"]
        if k == "rec":
            self.reached.add(t)
            if id(t) in self.named:
                return "%s %s" % (p["u"], self.named[id(t)])
            if t in self.stack:
                return "outer %d" % self.stack.index(t)
            return self.body(t)
        if k == "ptr":
            return ("ptr%d" % ctypes.sizeof(t), self.type(p["to"]))
        if k == "arr":
            return ("arr", p["n"], self.type(p["of"]))
        if k == "fn":
            return ("fn", self.type(p["res"]), tuple(self.type(a) for a in p["args"]))
        return show(t)

    def body(self, cls):
        self.stack.append(cls)
        out = []
        for f in getattr(cls, "_fields_", ()):
            out.append((f[0], bitpos(cls, f[0]), self.type(f[1]), f[2:]))
        self.stack.pop()
        return (show(cls).split()[0], ctypes.sizeof(cls) if hasattr(cls, "_fields_") else -1,
                tuple(getattr(cls, "_anonymous_", ())), tuple(out))

    def name(self, n):
        v = self.ns[n]
        if id(v) in self.named and self.named[id(v)] == n:
            self.reached.add(v)
            return self.body(v)
        return self.value(v)

    def value(self, v):
        if isinstance(v, type):
            if issubclass(v, _ctypes.CFuncPtr) and "argtypes" in vars(v):
                # the placeholder of a function
                return ("function", self.type(v.restype), tuple(self.type(a) for a in v.argtypes))
            return self.type(v)
        if isinstance(v, _ctypes.CFuncPtr):
            return ("function", self.type(v.restype), tuple(self.type(a) for a in v.argtypes or ()))
        if isinstance(v, (list, tuple)):
            return [self.value(x) for x in v]
        if isinstance(v, dict):
            return sorted((k, self.value(x)) for k, x in v.items())
        if isinstance(v, _ctypes._Pointer):
            return ("object", self.type(type(v)), bool(v))
        if isinstance(v, _ctypes._SimpleCData):
            return ("object", self.type(type(v)), repr(v.value))
        if isinstance(v, (_ctypes.Array, _ctypes.Structure, _ctypes.Union)):
            return ("object", self.type(type(v)), bytes(v) if ctypes.sizeof(v) < 4096 else "")
        return repr(v)

    def reach(self, t):
        """all the classes of records behind a value, with those that have names"""
        todo, seen = [t], set()
        while todo:
            v = todo.pop()
            if not isinstance(v, type):
                if isinstance(v, _ctypes.CFuncPtr):
                    todo += [v.restype] + list(v.argtypes or ())
                elif isinstance(v, (list, tuple)):
                    todo += v
                elif isinstance(v, (_ctypes._SimpleCData, _ctypes.Array, _ctypes.Structure, _ctypes.Union, _ctypes._Pointer)):
                    todo.append(type(v))
                continue
            if v in seen:
                continue
            seen.add(v)
            p = proj(v)
            todo += [p[k] for k in ("to", "of", "res") if k in p] + list(p.get("args", ()))
            if issubclass(v, _ctypes.CFuncPtr) and "argtypes" in vars(v):
                todo += [v.restype] + list(v.argtypes)
            if p["k"] == "rec":
                todo += [f[1] for f in getattr(v, "_fields_", ())]
        return {v for v in seen if proj(v)["k"] == "rec"}


def flat_fields(cls, known=()):
    """members without paddings and unnamed bit-fields (that have a name which is not known), those of unnamed members in their place"""
    out = []
    anon = getattr(cls, "_anonymous_", ())
    for f in getattr(cls, "_fields_", ()):
        if f[0] in anon:
            out.extend(flat_fields(f[1], known))
        elif not f[0].startswith("PADDING_") and not (len(f) == 3 and re.match(r"_\d+$", f[0]) and f[0] not in known):
            out.append(f)
    return out
