"""C11: selections pick what they name, and what it needs."""
import collections
import io
import os
import re
import tempfile

import p_c05
import project
import render
import units
import vk

TECHNIQUE = ("TLA+ state machine of translation units and of selections of their declarations, with the closure of what they need; "
             "TLC-enumerated and simulated selections replayed, modules compared with the unrestricted one")
NOTE = ("All graphs of 2 declarations with all subsets of kinds and all single names; random units of 10 declarations with random kinds, "
        "names and anchored or unanchored expressions, in any combination: names, meaning and absence of everything else.")
FEATURES = ["union", "pack", "nest", "inner", "fwd", "implicit", "typedef", "anontypedef", "enum", "fnptr", "func", "object", "var", "macro", "again"]


def pattern(p):
    return ("^" if p["start"] else "") + re.escape(p["s"]) + ("$" if p["end"] else "")


def translate(path, argv):
    """through the command, as a user does"""
    from ctypeslib import clang2py
    out = path + ".py"
    rc = clang2py.main([path, "-o", out] + argv)
    if rc:
        raise RuntimeError("clang2py ends with %r" % rc)
    with open(out) as fh:
        return fh.read()


def argv(case):
    s = case["sel"]
    kinds = set(s["kinds"])
    if "s" in kinds:
        # structures: with any of these letters
        kinds = kinds - {"s"} | [{"s"}, {"c"}, {"c", "s"}][len(case["decls"] + sorted(s["names"])) % 3]
    out = ["-k", "".join(sorted(kinds))]
    for n in sorted(s["names"]):
        out += ["-s", n]
    for p in sorted(pattern(p) for p in s["pats"]):
        out += ["-r", p] if not p.startswith("-") else ["-r" + p]
    opts = render.TARGETS[case["target"]]
    if opts:
        out += ["--clang-args=" + " ".join(opts)]
    return out


def check(case):
    vk.import_ctypeslib()
    d = tempfile.mkdtemp(dir=vk.scratch())
    path = os.path.join(d, "unit.c")
    with open(path, "w") as fh:
        fh.write(units.source(case))
    whole = vk.load(translate(path, ["-k", "cdefmstu"] + argv(case)[2 + 2 * (len(case["sel"]["names"]) + len(case["sel"]["pats"])):]))
    part = vk.load(translate(path, argv(case)))
    return compare(case, whole, part)


def compare(case, whole, part):
    out = []
    names = list(part.get("__all__", ()))
    must, may = set(case["must"]), set(case["may"])
    for n, k in collections.Counter(names).items():
        if k > 1:
            out.append("__all__ lists %s %d times" % (n, k))
        if n not in part:
            out.append("__all__ lists %s, which is not defined" % n)
    for n in sorted(must):
        if n not in part or n not in names:
            out.append("%s is missing" % n)
    declared = p_c05.declared(case) | {"%s_%s" % (u, t) for u, t in case["inc"] or []}
    a, b = project.Meaning(whole, declared), project.Meaning(part, declared)
    implied = {"%s_%s" % (u, t) for u, t in case["inc"] or []} - p_c05.declared(case)
    reached = set()
    for n in must & set(part):
        reached |= b.reach(part[n])
    for n in names:
        # the classes that have no declared name are selected by the name that they get
        if n in part and isinstance(part[n], type) and n not in declared and selected(case, n):
            reached |= b.reach(part[n])
            may |= others(case)  # its members may have these as types
    for n in sorted(set(names)):
        if n not in part:
            continue
        base = n[:-len("__enumvalues")] if n.endswith("__enumvalues") else n
        if n in declared or base in declared:
            if base not in may and not (isinstance(part[n], type) and part[n] in reached) and not (n in implied and selected(case, n)):
                out.append("%s is neither selected nor needed" % n)
        elif not (isinstance(part[n], type) and part[n] in reached) and not selected(case, n):
            out.append("%s is neither selected nor needed" % n)
        if n not in declared and base not in declared:
            continue  # the name of an anonymous class: what it is shows where it is used
        if n not in whole:
            out.append("%s is not in the whole module" % n)
        elif a.name(n) != b.name(n):
            out.append("%s is %s, in the whole module %s" % (n, b.name(n), a.name(n)))
    return out


def others(case):
    return ({x for d in case["decls"] if d["d"] == "en" for x in [d["tag"]] + [i["name"] for i in d["items"]]} |
            {d["name"] for d in case["decls"] if d["d"] == "td"})


def selected(case, n):
    """a record without a declaration of its own, that a selection may name"""
    s = case["sel"]
    if n.split("_")[0][0] not in s["kinds"]:
        return False
    return not s["names"] and not s["pats"] or any(re.search(pattern(p), n) for p in s["pats"])


def show(case):
    return "// clang2py " + " ".join(argv(case)) + "\n" + units.source(case)


def jobs(num, seed, parts, **kw):
    c = dict(units.consts(FEATURES, **kw), MaxPatterns=3)
    return [dict(module="Select", consts=c, sim=k, depth=600, seed=seed * 1000 + i, spec="SSpec", invariants=["SelectOK", "SEmit"])
            for i, k in enumerate(vk.split(num, parts)) if k]


def small(features, types=(), **kw):
    j = units.bfs(units.HOST, types, features, heap="4g", **kw)
    j["consts"]["MaxPatterns"] = 1
    return dict(j, module="Select", spec="SSpec", invariants=["SelectOK", "SEmit"])


def run(rep):
    deep = rep.thorough()
    rep.rule = "units and selections of Select.tla; non-trivial: something is selected and something is left out"
    js = jobs(12000 if deep else 2400, vk.SEED + 110, 6, decls=10, fields=3)
    js += jobs(2000 if deep else 300, vk.SEED + 111, 2, decls=8, fields=3, targets=units.FOREIGN)
    js += [small(["fwd", "graph", "typedef", "union"], fields=1, decls=2)]
    if deep:
        js += [small(["graph", "typedef", "inner"], fields=1, decls=3, depth=1)]
    r = rep.tlc(vk.simulate(js))
    cases = r.cases
    exhaustive = [c for c in cases if len(c["decls"]) <= 3]
    if not deep:
        # enough of the exhaustive ones: each shape with each selection of it
        import random
        random.Random(vk.SEED).shuffle(exhaustive)
        keep = {id(c) for c in exhaustive[:900]}
        cases = [c for c in cases if len(c["decls"]) > 3 or id(c) in keep]
    c = units.coverage(rep, cases)
    units.need(c, *["declaration " + k for k in ("fwd", "rec", "inner", "td", "en", "fn", "var", "mac", "ext", "obj")])
    n = collections.Counter()
    for case in cases:
        s = case["sel"]
        n["names and expressions"] += bool(s["names"] and s["pats"])
        n["names"] += bool(s["names"])
        n["expressions"] += bool(s["pats"])
        n["kinds"] += len(s["kinds"]) < 7
        n["needed"] += len(case["must"]) > len(case["picked"])
        n["left out"] += len(p_c05.declared(case) - set(case["may"])) > 0
        n["nothing selected"] += not case["picked"]
    rep.cov["selections"] = dict(n)
    rep.cov["selections enumerated"] = len(r.cases)
    units.need(n, "names and expressions", "names", "expressions", "kinds", "needed", "left out", "nothing selected")
    rep.replay(check, cases, show=show, key=lambda c: units.shape(c) + repr(c["sel"]),
               nontrivial=lambda c: c["picked"] and p_c05.declared(c) - set(c["may"]))
    rep.assumptions = ["a typedef between a selected declaration and a type it needs may be there or not",
                       "classes of anonymous records are part of what uses them"]
