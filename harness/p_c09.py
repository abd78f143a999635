"""C09: variables."""
import collections

import macros
import units
import variables
import vk

TECHNIQUE = ("TLA+ state machine of declarations, definitions and repeated declarations of variables over typed C expressions; "
             "TLC-enumerated and simulated units replayed into the generator")
NOTE = ("All scalar types with the boundary values of each integer type; all short lists over few values; random units of 12 lines with "
        "constants, macros, characters, strings, floats, designators, matrices, records and pointers, and declarations in any order.")
ANCHORS = [(0, 0), (0, 1), (0, 5), (7, -1), (7, 0), (8, -1), (8, 0), (15, 0), (16, -1), (31, -1), (31, 0), (32, -1), (63, -1), (63, 0), (64, -1)]
INTS = ["char", "uchar", "schar", "wchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "bool", "uenum", "senum"]
FLOATS = ["float", "double", "ldouble"]
KINDS = ["const", "scalar", "list", "matrix", "text", "object", "declare", "again"]
TARGETS = {"x86_64-linux": (64, True, 32), "i386-linux": (32, True, 32), "x86_64-win32": (32, True, 16)}


def job(sim=None, anchors=ANCHORS, forms=("dec", "hex", "oct", "char", "flt", "str"), sufs=("", "u", "ul", "ll"), bases=INTS + FLOATS,
        kinds=KINDS, lines=1, nodes=5, stk=3, target="x86_64-linux", **kw):
    lb, cs, wb = TARGETS[target]
    return dict(module="Vars", consts=dict(Sim=sim is not None, MaxLines=lines, Anchors="={%s}" % ", ".join("<<%d, %d>>" % a for a in anchors),
                                           Forms=set(forms), Sufs=set(sufs), Bases=set(bases), Kinds=set(kinds), MaxNodes=nodes, MaxStk=stk,
                                           Target=target, LongBits=lb, CharSigned=cs, WcharBits=wb),
                sim=sim, depth=500, invariants=["OneDefinition", "InRange", "Emit"], **kw)


def check(case):
    from render import TARGETS as OPTS
    src, opts = variables.written(case)
    tu = units.parse_c(src + variables.asserts(case), case["target"], opts)
    errs = [d.spelling for d in tu.diagnostics if d.severity > 2]
    if errs:
        raise vk.Machinery("the specification does not agree with clang: %s\n%s" % (errs[:3], src + variables.asserts(case)))
    ns = vk.load(vk.generate(src, list(OPTS[case["target"]]) + opts, kinds="cdefmstu"))
    out = []
    for n, o in (case["objs"] or {}).items():
        p = variables.problem(o, n, ns, case["target"] == units.HOST)
        if p:
            out.append(p)
    for l in case["lines"]:
        if l["kind"] == "enum" and ns.get(l["name"]) != macros.num(l["items"][0]["v"]):
            out.append("%s is %r" % (l["name"], ns.get(l["name"])))
    return out


def run(rep):
    deep = rep.thorough()
    rep.rule = "units of Vars.tla; non-trivial: more than one line, or a definition"
    jobs = [job(kinds=["scalar"], forms=["dec", "char", "flt"], sufs=["", "u", "ul", "ll"] if deep else [""], nodes=2, stk=1),
            job(kinds=["object"], stk=0),
            job(kinds=["text"], forms=["str"], stk=2),
            job(kinds=["list", "matrix"], forms=["dec"], sufs=[""], anchors=[(0, 0), (0, 5), (8, -1)], nodes=1, stk=3 if deep else 2,
                bases=["char", "bool", "short", "ullong", "double"])]
    num = 9000 if deep else 900
    for t in TARGETS:
        for i, k in enumerate(vk.split(num if t == units.HOST else num // 5, 3 if t == units.HOST else 1)):
            jobs.append(job(sim=k, lines=12, target=t, nodes=7, sufs=("", "u", "ul") if "win" in t else ("", "u", "ul", "ll"), seed=vk.SEED * 1000 + 91 + i))
    r = rep.tlc(vk.simulate(jobs))
    c = collections.Counter()
    for case in r.cases:
        for l in case["lines"]:
            c[l["kind"]] += 1
            c["command line"] += l["store"] == "command"
            if l["kind"] == "def":
                c["form " + l["form"]] += 1
                c["limit"] += any(i["ref"].startswith("LIM") for i in l["items"])
                c["base " + l["b"]] += 1
                c["designators"] += any(p[2] for p in l["pos"])
                c["defined after a declaration"] += any(m["name"] == l["name"] and m["kind"] == "decl" for m in case["lines"])
    rep.cov["contents"] = dict(sorted(c.items()))
    units.need(c, "enum", "limit", "command line", "macro", "def", "decl", "again", *["form " + f for f in ("num", "chars", "charp", "charpp", "chars2")],
               *["base " + b for b in INTS + FLOATS], "designators", "defined after a declaration")
    rep.replay(check, units.renamed(r.cases, variables.source), show=lambda c: "%s%s" % (variables.source(c), variables.options(c)), nontrivial=lambda c: any(l["kind"] == "def" for l in c["lines"]))
    rep.assumptions = ["the units of the specification are accepted by clang with its values and sizes (checked on each)"]


def known_compiler(_):
    ns = vk.load(vk.generate("int v = __INT_MAX__;\n"))
    return [] if ns.get("v") == 2147483647 else ["v is %r" % (ns.get("v"),)]


KNOWN = {"compiler_macro": known_compiler}
