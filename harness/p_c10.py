"""C10: functions and variables of libraries."""
import collections

import calls
import funcs
import units
import vk

TECHNIQUE = ("TLA+ state machines of libraries, exports and declarations (binding) and of translation units with the calling "
             "convention (values); cases of TLC replayed: real libraries are built, generated modules loaded and called")
NOTE = ("All small arrangements of two libraries and two functions; random ones with every kind of exported and private symbol, "
        "system libraries, equal names, preloading; random prototypes over all types and all records of up to 3 members by value.")
BINDING = dict(FnNames={"fa", "fb", "fc", "lambda", "_fd", "__fe__", "_name", "cos", "abs"}, VarNames={"va", "vb", "vc", "vd", "class"},
               Ways={"nm", "dl", "m", "c"}, Dirs={"one", "two", "a b"}, Bases={"lib.so", "libx.so.1", "l'b.so"},
               Exports={"global", "weak", "alias", "ifunc", "versioned", "protected", "static", "hidden", "undefined", "old"}, Deps={"d1", "d2"},
               DepFiles={"d1", "d2", "a0", "b'c", "Z z"})
INV = ["BindOK", "OnceOK", "PreOK", "Emit"]


def binding(sim=None, maxlibs=4, decls=8, **kw):
    c = dict(BINDING, Sim=sim is not None, MaxLibs=maxlibs, MaxDecls=decls)
    c.update({k: kw.pop(k) for k in list(kw) if k in c})
    return dict(module="Funcs", consts=c, sim=sim, depth=100, invariants=INV, **kw)


def byvalue(decls, fn, body, *args):
    """what a function of records returns through a generated module"""
    import os
    import subprocess
    import tempfile
    d = tempfile.mkdtemp(dir=vk.scratch())
    src = decls + fn + ";\n"
    with open(os.path.join(d, "a.c"), "w") as fh:
        fh.write(decls + fn + body)
    so = os.path.join(d, "a.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, os.path.join(d, "a.c")], check=True)
    vk.import_ctypeslib()
    from ctypeslib.library import Library
    ns = vk.load(vk.generate(src, searched_dlls=[Library(so, nm="nm")]))
    return ns["fn"](*[ns[n](*v) if isinstance(v, tuple) else v for n, v in args])


def known_padded(_):
    got = byvalue("struct A { float f; double d; };\n", "double fn(struct A a)", " { return a.f * 100 + a.d; }", ("struct_A", (1, 2)))
    return [] if got == 102 else ["it gives %r" % got]


def known_aligned(_):
    got = byvalue("struct H { long a, b, c; };\nstruct I { long double x; };\n", "double fn(struct H h, struct I i, long z)",
                  " { return h.a * 100 + i.x * 10 + z; }", ("struct_H", (1, 2, 3)), ("struct_I", (5,)), ("", 7))
    return [] if got == 157 else ["it gives %r" % got]


KNOWN = {"padded_float": known_padded, "aligned_record": known_aligned}


def run(rep):
    deep = rep.thorough()
    rep.rule = "arrangements of Funcs.tla and units of Unit.tla; non-trivial: a function that is bound and called"
    small = dict(FnNames={"fa", "fb"}, VarNames=set(), Ways={"nm"}, Exports={"global", "hidden"}, Deps=set(), Dirs={"one", "two"})
    jobs = [binding(maxlibs=2, decls=2 if deep else 1, Bases={"lib.so", "lib2.so"} if deep else {"lib.so"}, **small),
            binding(maxlibs=3, decls=1, **dict(small, FnNames={"fa"}, Dirs={"one", "two", "three"}, Bases={"lib.so"}))]
    for i, k in enumerate(vk.split(6000 if deep else 500, 3)):
        jobs.append(binding(sim=k, seed=vk.SEED * 1000 + 101 + i))
    r = rep.tlc(vk.simulate(jobs))
    c = collections.Counter()
    for case in r.cases:
        for l in case["libs"]:
            c["library " + l["way"]] += 1
            for k in (l["sym"] or {}).values():
                c["symbol " + k] += 1
        c["preload"] += bool(case["pre"])
        c["preload against the alphabet"] += sorted(case["files"][x] for x in case["pre"]) != [case["files"][x] for x in case["pre"]]
        for n, b in (case["bind"] or {}).items():
            c["bound" if b else "unbound"] += 1
            c["bound to a later library"] += b > 1
        bases = [l["base"] for i, l in enumerate(case["libs"]) if i + 1 in case["used"] and l["way"] in ("nm", "dl")]
        c["two used libraries of the same name"] += len(bases) != len(set(bases))
    rep.cov["arrangements"] = dict(sorted(c.items()))
    units.need(c, *["library " + w for w in ("nm", "dl", "m", "c")], *["symbol " + k for k in BINDING["Exports"] | {"data", "bss", "const"}],
               "preload", "preload against the alphabet", "bound", "unbound", "bound to a later library", "two used libraries of the same name")
    rep.replay(funcs.check, r.cases, show=funcs.show, nontrivial=lambda c: any((c["bind"] or {}).values()))

    # values through calls
    feats = ["union", "pack", "nest", "inner", "fwd", "typedef", "anontypedef", "enum", "fnptr", "func", "bits", "align"]
    num = 9000 if deep else 900
    jobs = units.sim_jobs(num, vk.SEED + 100, features=feats, targets=[units.HOST], decls=10, fields=4)
    jobs += units.sim_jobs(num // 2, vk.SEED + 101, features=["byval", "func", "typedef", "nest"], targets=[units.HOST], decls=6, fields=3, parts=3)
    T = ['B("%s")' % b for b in (("char", "int", "long", "float", "double") if not deep else
                                 ("char", "short", "int", "long", "float", "double", "bool"))] + ["Ptr(Void)", 'Arr(B("float"), 2)']
    jobs += [units.bfs(units.HOST, T, ["byval"], fields=3, decls=2, heap="4g")]
    r = rep.tlc(vk.simulate(jobs))
    cases = [c for c in r.cases if c["exp"]["funcs"]]
    n = collections.Counter()
    for case in cases:
        for f in case["exp"]["funcs"]:
            n["functions"] += 1
            for a, w in list(zip(f["args"], f["abi"])) + [(f["res"], f["rabi"])]:
                n["%s %s" % (a["k"], w)] += 1
    rep.cov["values"] = dict(sorted(n.items()))
    units.need(n, "functions", "rec ok", "rec padded", "rec ctypes", "ptr ok", "int ok", "flt ok", "ld ok", "fn ok", "char ok", "bool ok", "void ok")
    rep.replay(calls.check, units.renamed(cases), show=units.source, key=units.shape)
    rep.assumptions = ["the libraries of the cases are built by gcc for the machine the check runs on",
                       "unions, bit-fields, packed records with unaligned members and matrices are not passed by value (ctypes cannot)"]
