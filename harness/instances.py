"""Lives of instances (Instances.tla) on the generated classes."""
import ctypes
import json
import re
import struct

import _ctypes

import project
import units
import vk

ALIASES = [None, None, "PADDINGX%s", "PADDING_%sx", "PADDING_x%s", "padding_%s"]


def aliased(case, how):
    """the case with members of other names"""
    if how is None:
        return case
    return json.loads(re.sub(r'"f(\d+)"', lambda k: '"%s"' % (how % k.group(1)), json.dumps(case)))


def name(cls, step):
    return cls._anonymous_[int(step[1:]) - 1] if step.startswith("?") else step


def field(cls, step):
    n = name(cls, step)
    for f in cls._fields_:
        if f[0] == n:
            return f
    raise AttributeError("%s has no member %s" % (cls.__name__, n))


def is_chars(t):
    return isinstance(t, type) and issubclass(t, ctypes.Array) and t._type_ is ctypes.c_char


def value_of(cls, step, data):
    """the Python value of the bytes for a member"""
    f = field(cls, step)
    t = f[1]
    data = bytes(data)
    if len(f) == 3:
        return int.from_bytes(data, "little")
    if is_chars(t):
        return data
    x = t.from_buffer_copy(data)
    if issubclass(t, _ctypes._SimpleCData):
        return x.value
    return x


def scalar(kind, data):
    data = bytes(data)
    if kind == "float":
        return struct.unpack("<f", data)[0]
    if kind == "double":
        return struct.unpack("<d", data)[0]
    if kind == "char":
        return data
    if kind == "bool":
        return bool(data[0])
    return int.from_bytes(data, "little")


def decoded(leaf):
    k, data = leaf["kind"], bytes(leaf["val"])
    if k == "int":
        v = int.from_bytes(data, "little")
        return v - (1 << leaf["bits"]) if v >> (leaf["bits"] - 1) else v
    return scalar(k, data)


def go(x, step):
    """one step into an instance"""
    if step == "*":
        return x.contents
    if isinstance(x, ctypes.Array):
        return x[int(step)]
    f = field(type(x), step)
    if is_chars(f[1]):
        return f[1].from_buffer(x, getattr(type(x), f[0]).offset)
    return getattr(x, f[0])


def follow(x, path):
    for s in path:
        x = go(x, s)
    return x


def assign(x, path, value):
    for s in path[:-1]:
        x = go(x, s)
    if isinstance(x, ctypes.Array):
        x[int(path[-1])] = value
    else:
        setattr(x, name(type(x), path[-1]), value)


class Life:
    def __init__(self, case, ns):
        self.case, self.ns = case, ns
        self.objs, self.classes = [], []
        self.problems = []
        self.calls = []
        self.returns = {}
        self.keep = []

    def cls(self, t):
        return self.ns["%s_%s" % (t["u"], t["tag"]) if t["k"] == "r" else t["name"]]

    def bad(self, fmt, *a):
        self.problems.append(fmt % a)

    # callbacks
    def sample(self, t):
        if t is None:
            return None
        return {"c": b"\x07", "?": True, "f": 1.5, "d": 1.5, "g": 1.5, "P": 4096}.get(t._type_, 7)

    def default(self, t):
        if t is None or t is ctypes.c_void_p:
            return None
        return t().value

    def arguments(self, ft):
        return [t() for t in ft._argtypes_]

    def check_fn(self, fn, token, path, label):
        if token == 0:
            if fn:
                self.bad("%s: %s is not null", label, path)
            return
        if not fn:
            return self.bad("%s: %s is null", label, path)
        del self.calls[:]
        got = fn(*self.arguments(type(fn)))
        if token == 199:
            want = self.default(type(fn)._restype_)
            if self.calls or got != want:
                self.bad("%s: the callback %s that is not bound gives %r, expected %r", label, path, got, want)
        else:
            want = self.sample(type(fn)._restype_)
            if len(self.calls) != 1 or self.calls[0] != (token - 200, path[-1], len(type(fn)._argtypes_)) or got != want:
                self.bad("%s: the callback %s calls %s and gives %r, expected %r", label, path, self.calls, got, want)

    def step(self, i, op):
        label = "operation %d (%s)" % (i, op["op"])
        try:
            self.perform(i - 1, op, label)
        except Exception as x:
            self.bad("%s fails with %s: %s", label, type(x).__name__, x)
            return False
        if len(self.objs) != len(op["after"]):
            return False
        for k, (o, want) in enumerate(zip(self.objs, op["after"]), 1):
            self.check_values(o, want, "%s, instance %d" % (label, k))
            self.check_dict(o, want, "%s, as_dict of instance %d" % (label, k))
        return not self.problems

    def refusal(self, label, fn, what):
        try:
            fn()
        except (TypeError, ValueError):
            return
        self.bad("%s: %s is accepted", label, what)

    def perform(self, i, op, label):
        kind = op["op"]
        if kind in ("new", "bind"):
            cls = self.cls(op["ty"][0])
        if kind == "new":
            pos = [value_of(cls, a["step"], a["val"]) for a in op["pos"]]
            kw = {name(cls, a["step"]): value_of(cls, a["step"], a["val"]) for a in op["kw"]}
            if op["bad"] == "surplus":
                return self.refusal(label, lambda: cls(*(pos + [0])), "one argument too many")
            if op["bad"] == "twice":
                kw[name(cls, op["pos"][0]["step"])] = pos[0]
                return self.refusal(label, lambda: cls(*pos, **kw), "a member given twice")
            self.objs.append(cls(*pos, **kw))
        elif kind == "bind":
            given = {name(cls, a["step"]): value_of(cls, a["step"], a["val"]) for a in op["kw"]}
            for a in op["pos"]:
                if a["val"] == [2]:
                    given[name(cls, a["step"])] = self.callback(i, a["step"], field(cls, a["step"])[1])
                elif a["val"] == [1]:
                    given[name(cls, a["step"])] = None
            if op["bad"] == "unknown":
                given["nosuch"] = None
                return self.refusal(label, lambda: cls.bind(given), "an unknown name")
            copy = dict(given)
            o = cls.bind(given)
            if list(given) != list(copy):
                self.bad("%s: the mapping is changed to %s", label, list(given))
            if type(o) is not cls:
                self.bad("%s: gives a %s", label, type(o).__name__)
            self.objs.append(o)
        elif kind in ("set", "through"):
            assign(self.objs[op["obj"] - 1], op["path"], scalar(op["bad"], op["val"]))
        elif kind == "member":
            o = self.objs[op["obj"] - 1]
            a = op["kw"][0]
            setattr(o, name(type(o), a["step"]), value_of(type(o), a["step"], a["val"]))
        elif kind == "point":
            o = self.objs[op["obj"] - 1]
            t = type(follow(o, op["path"]))
            p = t() if op["to"] == 0 else t(self.objs[op["to"] - 1])
            assign(o, op["path"], p)

    def callback(self, i, step, ft):
        r = self.sample(ft._restype_)

        def call(*args):
            self.calls.append((i, step, len(args)))
            return r
        return call

    def token(self, leaf):
        return leaf["val"][0] if leaf["val"] else 0

    def check_pointer(self, p, token, path, label):
        """an instance of a pointer type"""
        got = ctypes.cast(p, ctypes.c_void_p).value
        want = None if token == 0 else ctypes.addressof(self.objs[token - 1])
        if got != want:
            self.bad("%s: %s points elsewhere", label, path)

    def check_values(self, o, leaves, label):
        for leaf in leaves:
            v = follow(o, leaf["path"])
            k = leaf["kind"]
            if k == "fn":
                self.check_fn(v, self.token(leaf), leaf["path"], label)
            elif k == "ptr":
                self.check_pointer(v, self.token(leaf), leaf["path"], label)
            elif k == "void*":
                if v not in (None, 0):
                    self.bad("%s: %s is %r, expected null", label, leaf["path"], v)
            else:
                want = decoded(leaf)
                if k in ("int", "uint") and isinstance(v, bytes):
                    v = int.from_bytes(v, "little", signed=k == "int")
                if v != want or (k == "bool" and leaf["bits"] == 8) != isinstance(v, bool):
                    self.bad("%s: %s is %r, expected %r", label, ".".join(leaf["path"]), v, want)

    def check_dict(self, o, leaves, label):
        d = type(o).as_dict(o)
        self.compare(d, type(o), leaves, 0, "", label, True)

    def compare(self, got, t, leaves, depth, path, label, top):
        """got: what as_dict has for the leaves below path; t: its type"""
        if issubclass(t, (ctypes.Structure, ctypes.Union)):
            if not top and isinstance(got, t):
                got = t.as_dict(got)  # an element of a nested array
            if not isinstance(got, dict):
                return self.bad("%s: %s is %r, not a dictionary", label, path, got)
            steps = list(dict.fromkeys(x["path"][depth] for x in leaves))
            names = [name(t, s) for s in steps]
            if list(got) != names:
                return self.bad("%s: %s has %s, expected %s", label, path, list(got), names)
            for s, n in zip(steps, names):
                f = field(t, s)
                below = [x for x in leaves if x["path"][depth] == s]
                if len(below[0]["path"]) == depth + 1:
                    self.compare_leaf(got[n], below[0], path + "." + n, label, True)
                else:
                    self.compare(got[n], f[1], below, depth + 1, path + "." + n, label, True)
        else:
            if is_chars(t):
                want = b"".join(bytes(x["val"]) for x in leaves).split(b"\0")[0]
                if isinstance(got, t):
                    got = got.value
                if got != want:
                    self.bad("%s: %s is %r, expected %r", label, path, got, want)
                return
            if top and not isinstance(got, list):
                return self.bad("%s: %s is %r, not a list", label, path, got)
            if len(got) != t._length_:
                return self.bad("%s: %s has %d elements, expected %d", label, path, len(got), t._length_)
            for i, v in enumerate(got):
                below = [x for x in leaves if x["path"][depth] == str(i)]
                p = "%s[%d]" % (path, i)
                if len(below[0]["path"]) == depth + 1:
                    self.compare_leaf(v, below[0], p, label, False)
                else:
                    self.compare(v, t._type_, below, depth + 1, p, label,
                                 top and issubclass(t._type_, (ctypes.Structure, ctypes.Union)))

    def compare_leaf(self, got, leaf, path, label, member):
        k = leaf["kind"]
        if k == "fn":
            self.check_fn(got, self.token(leaf), leaf["path"], label)
        elif k == "ptr":
            if not member:
                return self.check_pointer(got, self.token(leaf), path, label)
            token = self.token(leaf)
            want = None if token == 0 else ctypes.addressof(self.objs[token - 1])
            if (None if got is None else ctypes.addressof(got)) != want:
                self.bad("%s: %s is %r", label, path, got)
        elif k == "void*":
            if got not in (None, 0):
                self.bad("%s: %s is %r, expected null", label, path, got)
        else:
            want = decoded(leaf)
            if k in ("int", "uint") and isinstance(got, bytes):
                got = int.from_bytes(got, "little", signed=k == "int")
            if got != want or (k == "bool" and leaf["bits"] == 8) != isinstance(got, bool):
                self.bad("%s: %s is %r, expected %r", label, path, got, want)

    def accessors(self):
        for op in self.case["ops"]:
            if not op["ty"] or op["ty"][0].get("u") == "union":
                continue
            cls = self.cls(op["ty"][0])
            if not issubclass(cls, ctypes.Structure):
                continue
            for f in cls._fields_:
                if cls.get_type(f[0]) is not f[1]:
                    self.bad("get_type of %s.%s is %r", cls.__name__, f[0], cls.get_type(f[0]))
            if cls.get_type("nosuch") is not None:
                self.bad("get_type of no member is %r", cls.get_type("nosuch"))


def check(case):
    vk.import_ctypeslib()
    case = aliased(case, case.get("alias"))
    ns = vk.load(vk.generate(units.source(case)))
    life = Life(case, ns)
    for i, op in enumerate(case["ops"], 1):
        if not life.step(i, op):
            break
    if not life.problems:
        life.accessors()
    return life.problems


def show(case):
    out = [units.source(aliased(case, case.get("alias")))]
    for i, op in enumerate(case["ops"], 1):
        out.append("%d: %s" % (i, json.dumps({k: v for k, v in op.items() if k != "after" and v not in ([], 0, "none")})))
    return "\n".join(out)
