"""C08: object-like macros."""
import collections
import ctypes

import macros
import project
import units
import vk

TECHNIQUE = ("TLA+ state machine of a preprocessed file (definitions, redefinitions, conditions, uses) over typed C "
             "expressions; TLC-enumerated and simulated files replayed into the generator")
NOTE = ("All integer literals at the boundary values in each base, suffix, sign and nesting; all one-operator expressions over "
        "them; random files of 14 lines with references between macros, strings, floats, characters and bodies without a value.")
ANCHORS = [(0, 0), (0, 1), (0, 7), (0, 8), (0, 9), (0, 64), (0, 255), (15, 0), (31, -1), (31, 0), (32, -1), (32, 0), (63, -1), (63, 0), (64, -1)]
FORMS = ["dec", "hex", "oct", "bin"]
SUFS = ["", "u", "l", "ul", "ll", "ull"]
KINDS = ["int", "float", "char", "str", "alias", "empty", "junk", "expr", "use"]
TARGETS = {"x86_64-linux": 64, "i386-linux": 32}


def job(sim=None, anchors=ANCHORS, forms=FORMS, sufs=SUFS, kinds=KINDS, defs=1, nodes=7, target="x86_64-linux", **kw):
    return dict(module="Macros", consts=dict(Sim=sim is not None, MaxDefs=defs, Anchors="={%s}" % ", ".join("<<%d, %d>>" % a for a in anchors),
                                             Forms=set(forms), Sufs=set(sufs), Kinds=set(kinds), Junk=set(macros.JUNK), MaxNodes=nodes,
                                             Target=target, LongBits=TARGETS[target]),
                sim=sim, depth=600, invariants=["InForce", "Emit"], **kw)


def check(case):
    from render import TARGETS as OPTS
    src = macros.source(case)
    tu = units.parse_c(src + macros.asserts(case), case["target"], [])
    errs = [d.spelling for d in tu.diagnostics if d.severity > 2]
    if errs:
        raise vk.Machinery("the specification does not agree with clang: %s\n%s" % (errs[:3], src + macros.asserts(case)))
    ns = vk.load(vk.generate(src, OPTS[case["target"]], kinds="cdefmstu"))
    out = []
    for n, e in (case["env"] or {}).items():
        if e["k"] == "none":
            continue
        want = macros.value(e)
        if n not in ns:
            out.append("the macro %s is not defined, expected %r" % (n, want))
        elif type(ns[n]) is not type(want) or ns[n] != want:
            out.append("%s is %r, expected %r" % (n, ns[n], want))
        elif n not in ns["__all__"]:
            out.append("%s is not in __all__" % n)
    for l in case["lines"]:
        if l["kind"] == "use":
            n, v = l["name"], macros.num(l["v"])
            if l["form"] == "enum" and ns.get("K_" + n) != v:
                out.append("K_%s is %r, expected %d" % (n, ns.get("K_" + n), v))
            if l["form"] == "array" and ctypes.sizeof(ns["T_" + n]) != 4 * v:
                out.append("T_%s is %s" % (n, project.show(ns["T_" + n])))
            if l["form"] == "bits" and ns["struct_S_" + n]._fields_[0][2] != v:
                out.append("S_%s.f has %s bits" % (n, ns["struct_S_" + n]._fields_[0][2]))
            if l["form"] == "var" and ns.get("v_" + n) != v:
                out.append("v_%s is %r, expected %d" % (n, ns.get("v_" + n), v))
        elif l["guard"] == "if0" and l["name"] in ns:
            out.append("%s is defined, and must not be" % l["name"])
    if "the_end" not in ns:
        out.append("the_end is not defined")
    return out


def known_unsigned(_):
    ns = vk.load(vk.generate("#define A (~0u)\n", kinds="m"))
    return [] if ns.get("A") == 4294967295 else ["A is %r" % ns.get("A")]


KNOWN = {"unsigned_complement": known_unsigned}


def run(rep):
    deep = rep.thorough()
    rep.rule = "files of Macros.tla; non-trivial: more than one line, or a body that is not a plain decimal literal"
    few = [(0, 0), (0, 7), (31, 0), (63, -1)]
    jobs = [job(kinds=["int"]), job(kinds=["float", "char", "str", "junk", "empty"]),
            job(kinds=["expr"], anchors=few[:3] if deep else few[1:3], forms=["dec"], sufs=["", "u", "ll"] if deep else ["", "u"], nodes=3),
            job(kinds=["int"], target="i386-linux", forms=["dec", "hex"])]
    num = 9000 if deep else 700
    for t in TARGETS:
        for i, k in enumerate(vk.split(num if t == units.HOST else num // 5, 3 if t == units.HOST else 1)):
            jobs.append(job(sim=k, defs=14, target=t, nodes=9, seed=vk.SEED * 1000 + 81 + i))
    r = rep.tlc(vk.simulate(jobs))
    c = collections.Counter()
    for case in r.cases:
        for l in case["lines"]:
            c[l["kind"]] += 1
            c["guard " + l["guard"]] += 1
            if l["kind"] == "junk":
                c["junk " + l["form"]] += 1

        def ops(t):
            if t["op"] in ("un", "bin"):
                c["%s %s" % (t["op"], t["name"])] += 1
            for k in t["kids"]:
                ops(k)
        for l in case["lines"]:
            ops(l["tree"])
    rep.cov["contents"] = dict(sorted(c.items()))
    units.need(c, *KINDS, *["guard " + g for g in ("again", "undef", "if0", "skip", "ifndef", "else")], *["junk " + j for j in macros.JUNK],
               *["bin " + o for o in macros.PREC], "un -", "un ~")
    rep.replay(check, units.renamed(r.cases, macros.source), show=macros.source, nontrivial=lambda c: len(c["lines"]) > 1 or c["lines"][0]["kind"] != "int"
               or c["lines"][0]["form"] != "dec" or c["lines"][0]["sign"] != "")
    rep.assumptions = ["types and values of the specification agree with clang on each case (checked on each)"]
