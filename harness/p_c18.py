"""C18: the order and the number of declarations do not matter."""
import p_c05
import project
import render
import units
import vk

TECHNIQUE = ("TLA+ state machine that makes a translation unit and spells it a second time in any order that C allows; TLC-enumerated and "
             "simulated pairs translated, and what their names mean compared")
NOTE = ("All second spellings of small units, random ones of units of up to 14 declarations: permuted, with forward declarations added or left "
        "out, with repeated declarations, and the kinds of declarations asked for in another order.")
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "nest", "inner", "fwd", "implicit", "typedef", "anontypedef", "enum", "fnptr", "func", "object", "var",
            "macro", "again", "fixed", "large", "open"]
INV = ["LayoutOK", "OrderOK", "NotStuck", "OEmit"]
ORDER = "cdefmstu"


def pair(case):
    return units.source(case), units.source(dict(case, decls=case["out"]))


def check(case):
    target = render.TARGETS[case["target"]]
    texts = pair(case)
    mods = []
    for text, kinds in zip(texts, (ORDER, case["order"])):
        mods.append(vk.load(vk.generate(text, target, kinds=kinds)))
    return compare(case, mods)


def compare(case, mods):
    problems = []
    declared = p_c05.declared(case) | {"%s_%s" % (u, t) for u, t in case["inc"] or []}
    for what, ns in zip(("first", "second"), mods):
        out = project.Compare(ns, case["exp"], units.PTR[case["target"]])
        for tag, r in sorted((case["exp"]["recs"] or {}).items()):
            name = "%s_%s" % (r["u"], tag)
            if name not in ns:
                problems.append("%s is not defined in the %s order" % (name, what))
            else:
                out.record(r, ns[name], name)
        problems += ["%s, in the %s order" % (p, what) for p in out.problems]
    alls = [set(ns["__all__"]) & declared for ns in mods]
    if alls[0] != alls[1]:
        problems.append("exported in one order only: %s" % sorted(alls[0] ^ alls[1]))
    m = [project.Meaning(ns, declared) for ns in mods]
    for n in sorted(declared):
        if (n in mods[0]) != (n in mods[1]):
            problems.append("%s is defined in one order only" % n)
        elif n in mods[0]:
            a, b = m[0].name(n), m[1].name(n)
            if a != b:
                problems.append("%s is %s in the first order, %s in the second" % (n, a, b))
    return problems


def show(case):
    return "target %s\n%s---- and with -k %s\n%s" % ((case["target"], pair(case)[0], case["order"], pair(case)[1]))


def run(rep):
    deep = rep.thorough()
    rep.rule = "pairs of spellings of Orders.tla; non-trivial: the second differs in more than the order of kinds"
    num = 12000 if deep else 1500
    jobs = []
    for i, k in enumerate(vk.split(num, 7)):
        c = units.consts(FEATURES, decls=4 + 2 * (i % 6), fields=2 + i % 3, targets=[units.HOST] if i % 3 else units.FOREIGN)
        jobs.append(dict(module="Orders", consts=dict(c, MaxExtra=3), sim=k, depth=600, seed=(vk.SEED + 180) * 1000 + i, invariants=INV,
                         spec="OSpec"))
    small = units.consts(["fwd", "graph", "typedef", "union"], decls=2, fields=1, depth=0, sim=False, types='={B("int")}')
    jobs.append(dict(module="Orders", consts=dict(small, MaxExtra=1 if deep else 0), invariants=INV, spec="OSpec", heap="4g"))
    cases = rep.tlc(vk.simulate(jobs)).cases
    c = units.coverage(rep, cases)
    for case in cases:
        one, two = ([x for x in case[k] if x["d"] != "inner"] for k in ("decls", "out"))
        c["moved"] += one != two
        c["added"] += len(two) > len(one)
        c["left out"] += len(two) < len(one)
        seen = set()
        for d in two:
            if d["d"] == "fwd":
                c["mentioned again" if d["tag"] in seen else "mentioned first"] += 1
            seen.add(d.get("tag"))
    rep.cov["orders"] = {k: c[k] for k in ("moved", "added", "left out", "mentioned again", "mentioned first")}
    units.need(c, "moved", "added", "left out", "mentioned again", "mentioned first", *["declaration " + k for k in (
        "fwd", "rec", "inner", "td", "en", "fn", "var", "mac", "ext", "obj")])
    rep.replay(check, units.renamed(cases), show=show, key=lambda k: units.shape(k) + units.shape(dict(k, decls=k["out"])) + k["order"],
               nontrivial=lambda k: [x for x in k["decls"] if x["d"] != "inner"] != k["out"])
    rep.assumptions = ["a tag is mentioned at file scope before it is in a prototype"]
