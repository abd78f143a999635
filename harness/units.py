"""Replays translation units of Unit.tla into the generator."""
import ctypes
import json
import random
import re
import zlib

import vk
import project
import render

HOST = "x86_64-linux"
FOREIGN = {"i386-linux", "x86_64-win32", "i386-win32", "arm-linux", "aarch64-linux"}
PTR = {"x86_64-linux": 8, "i386-linux": 4, "x86_64-win32": 8, "i386-win32": 4, "arm-linux": 4, "aarch64-linux": 8}
INV = ["LayoutOK", "ContainmentOK", "NamesOK", "Emit"]


def consts(features, targets=(HOST,), decls=8, fields=5, depth=2, sim=True, types=frozenset(), bits=frozenset()):
    return dict(Sim=sim, Targets=set(targets), Features=set(features), MaxDecls=decls, MaxFields=fields,
                MaxDepth=depth, SmallTypes=types, SmallBits=bits)


def sim_jobs(num, seed, module="Unit", inv=INV, steps=600, parts=6, **kw):
    c = consts(**kw)
    return [dict(module=module, consts=c, sim=k, depth=steps, seed=seed * 1000 + i, invariants=inv)
            for i, k in enumerate(vk.split(num, parts)) if k]


def bfs(target, types, features=(), bits=(), fields=3, decls=1, depth=0, **kw):
    """arguments for all the units of a small scope"""
    T = "={%s}" % ", ".join(types)
    Bt = "={%s}" % ", ".join('<<"%s", %d>>' % b for b in bits)
    return dict(module="Unit", consts=dict(Sim=False, Targets={target}, Features=set(features), MaxDecls=decls,
                                           MaxFields=fields, MaxDepth=depth, SmallTypes=T, SmallBits=Bt),
                invariants=INV, **kw)


def shape(case):
    """what a case contains, without its names"""
    return re.sub(r"\d+", "#", source(case)) + case["target"]


# names that mean something to Python
PYTHON = """class def lambda None True False is in print id object del pass import from global yield async await nonlocal assert
    raise with as and or not elif except finally try exec bytes setattr vars dir eval compile open input map int32 match value
    _ __ kwargs Ellipsis os clang np e pi j""".split()
NAMED = re.compile(r'\b(struct_|union_|)((S|T|E|K|f|fun|var|obj|MAC|M|v)\d+(?:_\d+)?)\b')
# names that contain each other
NESTED = ["a" * i + "_" * j + "b" * k for i in range(2, 8) for j in range(3) for k in range(4)] + ["_" + "a" * i for i in range(1, 5)]


# names like those that the generator makes up
MADE = ["_%d" % i for i in range(7)]


def renamed(cases, text=None):
    """The names are arbitrary: some of the cases with names that python, ctypes or the generator could mistake"""
    return [rename(c, zlib.crc32((text or source)(c).encode()) % 10) for c in cases]


def rename(case, how):
    if how > 5:
        return case
    text, pool, new = json.dumps(case), list({4: NESTED, 5: MADE}.get(how, PYTHON)), {}
    random.Random(text).shuffle(pool)

    def name(k):
        base = k.group(2)
        if how == 5 and not base.startswith("f") and len(text) % 3:
            return k.group()
        if base not in new:
            new[base] = (pool.pop() if pool else base, base + "_is_a_long_name" * 9, "__%s" % base, "_%s_" % base,
                         pool.pop() if pool else base, pool.pop() if pool else base)[how]
        return k.group(1) + new[base]
    return json.loads(NAMED.sub(name, text))


def walk_types(case):
    def rec(t):
        yield t
        for k in ("to", "of", "res"):
            if k in t:
                yield from rec(t[k])
        for a in t.get("args", ()):
            yield from rec(a)
    for r in list((case["rec"] or {}).values()) + list(case["anon"] or []):
        for f in r["fields"]:
            yield from rec(f["ty"])
    for d in case["decls"]:
        for k in ("ty", "res"):
            if k in d:
                yield from rec(d[k])
        for a in d.get("args", ()):
            yield from rec(a)


def coverage(rep, cases):
    """what the units of a run contained"""
    import collections
    c = collections.Counter()
    for case in cases:
        c["target " + case["target"]] += 1
        for d in case["decls"]:
            c["declaration " + d["d"]] += 1
            if d["d"] == "td":
                c["typedef with a tag"] += bool(d.get("def"))
                c["typedef of a function"] += d["ty"]["k"] == "f"
        for t in walk_types(case):
            c["type " + t["k"]] += 1
        for r in list((case["rec"] or {}).values()) + list(case["anon"] or []):
            c["record " + r["u"]] += 1
            if r["pack"]:
                c["packed record"] += 1
            if r["al"]:
                c["aligned record"] += 1
            for f in r["fields"]:
                if f["w"] >= 0:
                    c["bit-field"] += 1
                if f["w"] == 0:
                    c["zero width bit-field"] += 1
                if f["fal"]:
                    c["aligned member"] += 1
                if f["name"] == "":
                    c["unnamed member"] += 1
                if f["w"] >= 0 and f["ty"]["k"] != "b":
                    c["bit-field of a named type"] += 1
                if "open" in f["ty"]:
                    c["flexible array" if f["ty"]["open"] else "empty array"] += 1
    rep.cov["contents"] = dict(sorted(c.items()))
    return c


def need(counter, *keys):
    """the run must have exercised these"""
    missing = [k for k in keys if not counter.get(k)]
    if missing:
        raise vk.Machinery("no case had: %s" % ", ".join(missing))


QUALS = ["", "", "", "", "const ", "volatile "]


class Quals:
    """qualifiers, the same for the same declaration"""

    def __init__(self, salt):
        self.salt = salt
        self.decl({})

    def decl(self, d):
        self.rnd = random.Random(self.salt + repr(sorted((k, v) for k, v in d.items() if k not in ("d", "val", "of", "text", "ext", "def"))))

    def __call__(self):
        return self.rnd.choice(QUALS)


def source(case):
    q = Quals(repr(case["target"]))
    return render.Unit(case, qual=q, each=q.decl).source()


def parse_c(src, target=HOST, opts=()):
    vk.import_ctypeslib()
    import clang.cindex as ci
    return ci.TranslationUnit.from_source("t.c", render.TARGETS.get(target, []) + list(opts), unsaved_files=[("t.c", src)])


def oracle(case, src, opts=()):
    """the specification against the compiler: raises Machinery when the
    layout that the specification gives is not that of clang"""
    vk.import_ctypeslib()
    import clang.cindex as ci
    tu = parse_c(src, case["target"] if not opts else None, opts)
    errs = [d.spelling for d in tu.diagnostics if d.severity > 2]
    if errs:
        raise vk.Machinery("the specification made an invalid unit: %s\n%s" % (errs[:3], src))

    def walk(cur, r, path):
        t = cur.type
        if t.get_size() != r["size"]:
            raise vk.Machinery("clang: sizeof %s is %d, the specification says %d\n%s" % (
                path, t.get_size(), r["size"], src))
        want = [f for f in r["fields"] if f["w"] != 0 and not (f["w"] > 0 and f["name"] == "")]
        members = [f for f in t.get_fields()
                   if not (f.is_bitfield() and (f.spelling == "" or f.get_bitfield_width() == 0))]
        if len(members) != len(want):
            raise vk.Machinery("clang: %s has %d members, the specification says %d\n%s" % (
                path, len(members), len(want), src))
        for f, w in zip(members, want):
            bits = f.get_bitfield_width() if f.is_bitfield() else max(0, 8 * f.type.get_size())
            if (f.get_field_offsetof(), bits) != (w["off"], w["bits"]):
                raise vk.Machinery("clang: %s.%s is %d bits at %d, the specification says %d at %d\n%s" % (
                    path, w["name"], bits, f.get_field_offsetof(), w["bits"], w["off"], src))
            ty, ctype = w["ty"], f.type
            while ty["k"] in "ap":
                ctype = ctype.get_canonical()
                ctype = ctype.get_array_element_type() if ty["k"] == "a" else ctype.get_pointee()
                ty = ty["of"] if ty["k"] == "a" else ty["to"]
            if ty["k"] == "x":
                walk(ctype.get_declaration(), case["anon"][ty["id"] - 1], path + "." + w["name"])
            elif w["def"]:
                walk(ctype.get_declaration(), case["rec"][ty["tag"]], path + "." + w["name"])
    case["sizes"] = {c.spelling: c.type.get_size() for c in tu.cursor.get_children()
                     if c.kind == ci.CursorKind.TYPEDEF_DECL}
    for name, z in sizes_of_typedefs(case):
        if case["sizes"].get(name) != z:
            raise vk.Machinery("clang: sizeof %s is %s, the specification says %d\n%s" % (
                name, case["sizes"].get(name), z, src))
    for c in tu.cursor.get_children():
        if c.kind in (ci.CursorKind.STRUCT_DECL, ci.CursorKind.UNION_DECL) and c.is_definition():
            if c.spelling in (case["rec"] or {}):
                walk(c, case["rec"][c.spelling], c.spelling)


def sizes_of_typedefs(case):
    """typedefs of scalars: their size according to the specification"""
    functions = {d["name"] for d in case["decls"] if d["d"] == "td" and d["ty"]["k"] == "f"}
    for name, p in (case["exp"]["tds"] or {}).items():
        if name in functions:
            continue
        if p["k"] in ("int", "flt", "ld"):
            yield name, p["z"]
        elif p["k"] in ("char", "bool"):
            yield name, 1
        elif p["k"] in ("ptr", "fn"):
            yield name, PTR[case["target"]]


def module_of(case, check_oracle=True, **kw):
    src = source(case)
    if check_oracle:
        oracle(case, src)
    return vk.load(vk.generate(src, render.TARGETS[case["target"]], **kw))


# -- what each property looks at ------------------------------------------

def layout(case):
    """C01: sizes, member lists, offsets"""
    return compare_layout(case, module_of(case))


def compare_layout(case, ns, bits=False):
    exp = case["exp"]
    cmp = project.Compare(ns, exp, PTR[case["target"]])
    for tag, r in sorted((exp["recs"] or {}).items()):
        name = "%s_%s" % (r["u"], tag)
        if name not in ns:
            cmp.bad(name, "is not defined")
        else:
            cmp.record(r, ns[name], name, types=False, bits=bits)
    for name, p in sorted((exp["tds"] or {}).items()):
        if p["k"] == "anon" and name in ns:
            e = exp["anon"][p["id"] - 1]
            cmp.record(e, ns[name], name, types=False, bits=bits)
    return cmp.problems


def bits(case):
    """C02: layout, width and sign of bit-fields, and what a store changes"""
    ns = module_of(case)
    problems = compare_layout(case, ns, bits=True)
    if problems:
        return problems
    for tag, r in sorted((case["exp"]["recs"] or {}).items()):
        cls = ns["%s_%s" % (r["u"], tag)]
        problems += stores(cls, r, "%s_%s" % (r["u"], tag))
    return problems


def stores(cls, r, path):
    out = []
    rnd = random.Random(path + str(r["size"]))
    for f in r["flat"]:
        if f["w"] <= 0:
            continue
        w, off = f["w"], f["off"]
        signed = f["proj"].get("s", f["proj"]["k"] == "char")
        mask = (1 << w) - 1
        for fill in (0, (1 << (8 * r["size"])) - 1):
            for pattern in {0, 1, mask, mask >> 1, (mask >> 1) + 1, rnd.getrandbits(w)}:
                pattern &= mask
                value = pattern - (1 << w) if signed and pattern >> (w - 1) else pattern
                obj = cls.from_buffer_copy(fill.to_bytes(r["size"], "little"))
                setattr(obj, f["name"], value)
                got = int.from_bytes(bytes(obj), "little")
                want = (fill & ~(mask << off)) | (pattern << off)
                back = getattr(obj, f["name"])
                if got != want:
                    out.append("%s.%s = %d changes the bytes to %x, expected %x" % (path, f["name"], value, got, want))
                elif back != value:
                    out.append("%s.%s: stored %d, read %r" % (path, f["name"], value, back))
    return out[:5]


def types(case):
    """C06: the types of members, typedefs and prototypes"""
    return compare_types(case, module_of(case, kinds="cdefstu"))


def compare_types(case, ns):
    exp = case["exp"]
    cmp = project.Compare(ns, exp, PTR[case["target"]])
    for tag, r in sorted((exp["recs"] or {}).items()):
        name = "%s_%s" % (r["u"], tag)
        if name not in ns:
            cmp.bad(name, "is not defined")
            continue
        fields = {f[0]: f for f in project.flat_fields(ns[name])}
        for f in r["flat"]:
            where = "%s.%s" % (name, f["name"])
            if f["name"] not in fields:
                cmp.bad(where, "is missing")
            elif f["w"] < 0:
                cmp.type(f["proj"], fields[f["name"]][1], where)
    for name, p in sorted((exp["tds"] or {}).items()):
        if name not in ns:
            cmp.bad(name, "is not defined")
        else:
            cmp.type(p, ns[name], name)
    for f in exp["funcs"] or []:
        if f["name"] not in ns:
            cmp.bad(f["name"], "is not defined")
            continue
        fn = ns[f["name"]]
        cmp.type(f["res"], fn.restype, f["name"] + "()")
        if len(fn.argtypes) != len(f["args"]):
            cmp.bad(f["name"], "has %d arguments, expected %d", len(fn.argtypes), len(f["args"]))
        for i, (e, a) in enumerate(zip(f["args"], fn.argtypes)):
            cmp.type(e, a, "%s(%d)" % (f["name"], i))
    return cmp.problems
