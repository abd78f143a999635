"""C01: the layout of records."""
import units
import vk

TECHNIQUE = "TLA+ specification of C record layout; TLC-enumerated and simulated units replayed into the generator"
NOTE = "All records of at most 3 (thorough 4) members over 5 (7) types with every packing, and thousands of random units on 6 targets, are replayed; each expected layout comes from the specification and is cross-checked with clang."
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "pragma", "align", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "large", "open", "anontypedef", "enum", "fnptr"]
SMALL = ['B("char")', 'B("short")', 'B("int")', 'B("double")', 'B("ldouble")', 'Ptr(Void)', 'Arr(B("char"), 3)']


def run(rep):
    rep.rule = ("translation units of Unit.tla: every record of at most 3 (thorough: 4) members over %d member types, "
                "every packing, struct and union, and random units with nested, packed, aligned and pointer members; "
                "non-trivial: a record whose layout has padding or more than one member" % len(SMALL))
    deep = rep.thorough()
    jobs = []
    for t in sorted(units.PTR) if deep else ["x86_64-linux", "i386-linux"]:
        jobs.append(units.bfs(t, SMALL if deep else SMALL[:4] + SMALL[6:], ["union", "pack", "pragma"],
                              fields=4 if deep and t == units.HOST else 3, heap="4g"))
    if deep:
        jobs.append(units.bfs(units.HOST, SMALL[:4], ["union", "nest"], fields=2, depth=1, heap="6g"))
    else:
        jobs.append(units.bfs(units.HOST, SMALL[:1] + SMALL[3:4], ["union", "nest"], fields=2, depth=1))
    num = 12000 if deep else 900
    jobs += units.sim_jobs(num, vk.SEED, features=FEATURES, targets=[units.HOST], decls=8, fields=6)
    jobs += units.sim_jobs(num, vk.SEED + 500, features=FEATURES, targets=units.FOREIGN, decls=6, parts=4)
    r = rep.tlc(vk.simulate(jobs))
    c = units.coverage(rep, r.cases)
    units.need(c, "record union", "packed record", "aligned record", "aligned member", "unnamed member",
               "type x", "type a", "type p", "type f", *["target " + t for t in units.PTR])
    rep.replay(units.layout, units.renamed(r.cases), show=units.source, key=units.shape,
               nontrivial=lambda c: any(len(x["fields"]) > 1 for x in (c["rec"] or {}).values()))
    rep.assumptions = ["the specification's layout rules agree with clang %s on every case (checked on each)" % "18",
                       "bit-fields are the subject of C02"]
