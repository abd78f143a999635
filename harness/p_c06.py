"""C06: the ctypes type that stands for each C type."""
import units
import vk

TECHNIQUE = "TLA+ specification of C types and their projection to ctypes; TLC-enumerated and simulated units replayed into the generator"
NOTE = "Each of 141 type expressions as member and typedef on 6 targets, and thousands of random units with types nested up to depth 3."
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "large", "open", "anontypedef", "enum", "fnptr", "func"]
SCALARS = ["char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float",
           "double", "ldouble", "bool"]


def small():
    base = ['B("%s")' % s for s in SCALARS]
    out = list(base)
    for b in base:
        out += ["Ptr(%s)" % b, "Arr(%s, 3)" % b, "Ptr(Ptr(%s))" % b, "Arr(Arr(%s, 2), 3)" % b, "Arr(Ptr(%s), 2)" % b,
                "Ptr(Arr(%s, 2))" % b, "Ptr(Fn(%s, <<>>))" % b, "Ptr(Fn(Void, <<%s>>))" % b,
                "Ptr(Fn(Ptr(%s), <<Ptr(%s), B(\"int\")>>))" % (b, b)]
    out += ["Ptr(Void)", "Ptr(Ptr(Void))", "Ptr(Fn(Void, <<>>))", "Arr(Ptr(Fn(Void, <<>>)), 2)",
            "Ptr(Fn(Ptr(Fn(Void, <<>>)), <<>>))", "Ptr(Fn(Void, <<Ptr(Fn(Void, <<>>))>>))"]
    return out


def run(rep):
    deep = rep.thorough()
    rep.rule = ("translation units of Unit.tla: a member, and a typedef, of each of %d types on every target, and random "
                "units of records, typedefs, enumerations and prototypes with qualifiers sprinkled over them; non-trivial: "
                "has a derived type" % len(small()))
    jobs = [units.bfs(t, small(), ["typedef"], fields=1) for t in sorted(units.PTR)]
    num = 15000 if deep else 1500
    jobs += units.sim_jobs(num, vk.SEED + 20, features=FEATURES, targets=[units.HOST], decls=9, fields=4, depth=3)
    jobs += units.sim_jobs(num // 3, vk.SEED + 520, features=FEATURES, targets=units.FOREIGN, decls=6, fields=4, parts=4)
    r = rep.tlc(vk.simulate(jobs))
    c = units.coverage(rep, r.cases)
    units.need(c, "declaration fn", "declaration td", "declaration en", "type b", "type v", "type p", "type a", "type r",
               "type e", "type t", "type f", "type x")
    rep.replay(units.types, units.renamed(r.cases), show=units.source, key=units.shape,
               nontrivial=lambda c: any(t["k"] in "pafrtex" for t in units.walk_types(c)))
    rep.assumptions = ["the byte size of each long double is checked, not its ctypes class"]
