"""C07: enumerations."""
import ctypes

import enums
import project
import units
import vk

TECHNIQUE = "TLA+ state machine of enumerations over 64 bit values; TLC-enumerated and simulated units replayed into the generator"
NOTE = ("All enumerations of at most 2 (thorough 3) constants over the boundary values of each integer type in each "
        "syntactic form and each way to declare the type, and random units with references between enumerations.")
ANCHORS = [(0, 0), (0, 1), (0, -1), (7, -1), (7, 0), (8, -1), (8, 0), (-7, 0), (-7, -1), (15, 0), (16, -1), (16, 0),
           (-15, -1), (31, -1), (31, 0), (32, -1), (32, 0), (-31, 0), (-31, -1), (63, -1), (63, 0), (64, -1), (-63, 0)]
UNDERS = ["schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong"]
AHEADS = ["no", "alone", "used"]
FORMS = ["dec", "hex", "oct", "bin", "paren", "char", "shift", "ref", "sizeof", "or"]


def job(sim=None, anchors=ANCHORS, forms=FORMS, hows=enums.HOWS, packed=(False, True), enums_=1, items=2, target="x86_64-linux", unders=("none",), aheads=("no",), **kw):
    A = "={%s}" % ", ".join("<<%d, %d>>" % a for a in anchors)
    return dict(module="Enums", consts=dict(Sim=sim is not None, MaxEnums=enums_, MaxItems=items, Anchors=A,
                                            Forms=set(forms), Hows=set(hows), Packed="={%s}" % ", ".join(map(vk.tla, packed)),
                                            Unders=set(unders), Aheads=set(aheads), Target=target),
                sim=sim, depth=400, invariants=["Holds", "Follows", "Emit"], **kw)


def oracle(case, src):
    import clang.cindex as ci
    tu = units.parse_c(src, case["target"], enums.opts(case))
    errs = [d.spelling for d in tu.diagnostics if d.severity > 2]
    if errs:
        raise vk.Machinery("the specification made an invalid unit: %s\n%s" % (errs[:3], src))
    got, sizes = {}, []

    def walk(c):
        for x in c.get_children():
            if x.kind == ci.CursorKind.ENUM_CONSTANT_DECL:
                got[x.spelling] = x.enum_value
            if x.kind == ci.CursorKind.ENUM_DECL and x.is_definition():
                sizes.append(x.type.get_size())
            if x.kind in (ci.CursorKind.ENUM_DECL, ci.CursorKind.STRUCT_DECL):
                walk(x)
    walk(tu.cursor)
    for e in case["enums"]:
        for i in e["items"]:
            if got.get(i["name"]) != enums.num(i["val"]):
                raise vk.Machinery("clang: %s is %s, the specification says %s\n%s" % (
                    i["name"], got.get(i["name"]), enums.num(i["val"]), src))
    if sizes != [e["size"] for e in case["enums"]]:
        raise vk.Machinery("clang: sizes are %s, the specification says %s\n%s" % (
            sizes, [e["size"] for e in case["enums"]], src))


def check(case):
    src = enums.source(case)
    oracle(case, src)
    from render import TARGETS
    ns = vk.load(vk.generate(src, TARGETS[case["target"]] + enums.opts(case), kinds="cdefmstu"))
    out = []
    maps = [v for k, v in ns.items() if k.endswith("__enumvalues") and isinstance(v, dict)]
    for e in case["enums"]:
        want = {}
        for i in e["items"]:
            v = enums.num(i["val"])
            want.setdefault(v, set()).add(i["name"])
            if i["name"] not in ns:
                out.append("the constant %s is not defined" % i["name"])
            elif not isinstance(ns[i["name"]], int) or ns[i["name"]] != v:
                out.append("%s is %r, expected %d" % (i["name"], ns[i["name"]], v))
        name, how = e["name"], e["how"]
        places = []
        if how not in ("unnamed", "typedef", "member"):
            places.append((name, ns.get(name)))
            maps_here = [ns.get(name + "__enumvalues")]
        else:
            maps_here = [m for m in maps if any(set(m.values()) & n for n in want.values())][:1]
        if "typedef" in how:
            places.append(("T_" + name, ns.get("T_" + name)))
        if e["ahead"] == "used":
            t = dict(f[:2] for f in getattr(ns.get("struct_U_" + name), "_fields_", ())).get("f")
            p = project.proj(t) if t is not None else {"k": "none"}
            places.append(("struct_U_%s.f" % name, p["to"] if p["k"] == "ptr" else t))
        if "member" in how:
            c = ns.get("struct_S_" + name)
            if c is None:
                out.append("struct_S_%s is not defined" % name)
            else:
                t = dict(f[:2] for f in c._fields_).get("f")
                if how == "array_member":
                    if project.proj(t)["k"] != "arr" or t._length_ != 3:
                        out.append("%s.f is %s" % (c.__name__, project.show(t)))
                        t = None
                    else:
                        t = t._type_
                if t is not None:
                    places.append((c.__name__ + ".f", t))
        for where, t in places:
            p = project.proj(t)
            if p != {"k": "int", "z": e["size"], "s": e["signed"]}:
                out.append("%s is %s, expected %d bytes, %s" % (where, project.show(t), e["size"],
                                                               "signed" if e["signed"] else "unsigned"))
        if how == "var" and ns.get("v_" + name) != enums.num(e["items"][-1]["val"]):
            v = ns.get("v_" + name)
            out.append("v_%s is %r" % (name, v))
        for m in maps_here:
            if not isinstance(m, dict):
                out.append("%s__enumvalues is %r" % (name, m))
                continue
            if set(m) != set(want):
                out.append("the values of the map of %s are %s, expected %s" % (name, sorted(m), sorted(want)))
            for v, n in m.items():
                if v in want and n not in want[v]:
                    out.append("the map of %s has %s for %s" % (name, n, v))
        if not maps_here:
            out.append("no map of values for %s" % name)
    return out


def run(rep):
    deep = rep.thorough()
    rep.rule = ("units of Enums.tla; non-trivial: a constant that is not in 0..127, or two constants")
    jobs = [job(items=1), job(items=2, anchors=ANCHORS if deep else [ANCHORS[i] for i in (1, 2, 5, 7, 14, 18, 20, 21)],
                              forms=["dec", "hex", "shift"], hows=["named", "typedef"]),
            job(items=1, enums_=2, anchors=ANCHORS[1:3] + ANCHORS[18:19], forms=["dec", "ref", "or"], hows=["named", "unnamed", "member"],
                packed=[False])]
    jobs.append(job(items=1, anchors=ANCHORS if deep else ANCHORS[::2], forms=["dec"], hows=["named", "typedef", "member_named", "var"], packed=[False],
                    unders=UNDERS + ["none"], aheads=AHEADS))
    if deep:
        jobs.append(job(items=3, anchors=ANCHORS[::3], forms=["dec", "ref"], hows=["named"]))
    num = 12000 if deep else 1200
    for t in ("x86_64-linux", "i386-linux", "aarch64-linux"):
        for i, k in enumerate(vk.split(num, 3)):
            jobs.append(job(sim=k // (1 if t == units.HOST else 4), enums_=5, items=6, target=t,
                            seed=vk.SEED * 1000 + 77 + i))
    for t in (units.HOST, "i386-linux", "x86_64-win32"):
        jobs.append(job(sim=num // 8, enums_=5, items=6, target=t, unders=UNDERS + ["none"] * 3, aheads=AHEADS, packed=[False], seed=vk.SEED * 1000 + 177))
    r = rep.tlc(vk.simulate(jobs))
    import collections
    c = collections.Counter()
    for case in r.cases:
        for e in case["enums"]:
            c[e["how"]] += 1
            c["of " + e["under"]] += 1
            c["ahead " + e["ahead"]] += 1
            c["on windows"] += "win32" in case["target"]
            c["size %d%s" % (e["size"], "s" if e["signed"] else "u")] += 1
            for i in e["items"]:
                c["form " + i["form"]] += 1
    rep.cov["contents"] = dict(sorted(c.items()))
    units.need(c, *enums.HOWS, *["form " + f for f in FORMS + ["implicit"]], *["size %d%s" % (z, s) for z in (1, 2, 4, 8) for s in "su"],
               *["of " + u for u in UNDERS], *["ahead " + a for a in AHEADS], "on windows")
    rep.replay(check, units.renamed(r.cases, enums.source), show=enums.source, nontrivial=lambda c: len(c["enums"]) > 1 or len(c["enums"][0]["items"]) > 1
               or not 0 <= enums.num(c["enums"][0]["items"][0]["val"]) < 128)
    rep.assumptions = ["values and sizes of the specification agree with clang on each case (checked on each)"]
