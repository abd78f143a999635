"""C05: every declaration is present, and __all__ lists what is defined."""
import collections
import ctypes

import project
import render
import units
import vk

TECHNIQUE = "TLA+ state machine of translation units; TLC-enumerated and simulated units replayed, name sets compared"
NOTE = ("Random units of up to 14 declarations of all kinds and all small units of 2 declarations: the names that the "
        "module defines and exports are compared with the names that the specification says were declared.")
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "large", "open", "anontypedef", "enum", "fnptr", "func", "object", "var",
            "macro", "again"]


def declared(case):
    """the names a unit declares"""
    out = set()
    for d in case["decls"]:
        k = d["d"]
        if k in ("fwd", "rec", "inner"):
            out.add("%s_%s" % (d["u"], d["tag"]))
        elif k == "en":
            out.add(d["tag"])
            out.update(i["name"] for i in d["items"])
        else:
            out.add(d["name"])
    return out


def check(case):
    text = vk.generate(units.source(case), render.TARGETS[case["target"]], kinds="cdefmstu")
    return check_names(case, vk.load(text))


def check_names(case, ns, want=None):
    want = declared(case) if want is None else want
    implied = {"%s_%s" % (u, t) for u, t in case["inc"] or []}
    out = []
    names = list(ns.get("__all__", ()))
    for n, k in collections.Counter(names).items():
        if k > 1:
            out.append("__all__ lists %s %d times" % (n, k))
    for n in sorted(set(names)):
        if n not in ns:
            out.append("__all__ lists %s, which is not defined" % n)
    for n in sorted(want):
        if n not in ns:
            out.append("%s is not defined" % n)
        elif n not in names:
            out.append("__all__ does not list %s" % n)
    extra = [n for n in names if n not in want and n not in implied]
    enums = [n for n in extra if n.endswith("__enumvalues") and n[:-len("__enumvalues")] in want]
    anon = [n for n in extra if n not in enums]
    for n in anon:
        c = ns.get(n)
        if not (isinstance(c, type) and issubclass(c, (ctypes.Structure, ctypes.Union)) and n.startswith(
                ("struct_", "union_"))):
            out.append("__all__ lists %s, which nothing declares (%s)" % (n, project.show(c)))
    # a typedef of an anonymous record is that class under its name: at most one class for each
    if len(anon) > len(case["anon"] or []):
        out.append("%d classes for %d anonymous records: %s" % (len(anon), len(case["anon"] or []), sorted(anon)))
    return out


def run(rep):
    deep = rep.thorough()
    rep.rule = "units of Unit.tla with declarations of every kind; non-trivial: three kinds of declarations or more"
    num = 15000 if deep else 1600
    jobs = units.sim_jobs(num, vk.SEED + 60, features=FEATURES, targets=[units.HOST], decls=14, fields=3)
    jobs += units.sim_jobs(num // 4, vk.SEED + 560, features=FEATURES, targets=units.FOREIGN, decls=10, fields=3, parts=3)
    jobs += [units.bfs(units.HOST, ['B("int")'], ["fwd", "graph", "typedef", "union", "again", "implicit"], fields=1,
                       decls=3 if deep else 2, heap="4g")]
    r = rep.tlc(vk.simulate(jobs))
    c = units.coverage(rep, r.cases)
    units.need(c, *["declaration " + k for k in ("fwd", "rec", "inner", "td", "en", "fn", "var", "mac", "ext", "obj")])
    rep.replay(check, units.renamed(r.cases), show=units.source, key=units.shape,
               nontrivial=lambda c: len({d["d"] for d in c["decls"]}) > 2)
    rep.assumptions = ["names that the generator derives: classes of anonymous records, and NAME__enumvalues"]
