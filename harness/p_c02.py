"""C02: bit-fields."""
import units
import vk

TECHNIQUE = "TLA+ specification of bit-field layout; TLC-enumerated and simulated units replayed, with stores and loads on instances"
NOTE = "All records of at most 3 members over 8 (15) bit-fields and 2 types, and thousands of random ones; bytes are compared after each store."
FEATURES = ["union", "namedbits", "enum", "tagtd", "flex", "pack", "nest", "inner", "bits", "fwd", "typedef", "fixed", "large", "anontypedef"]
SMALL = ['B("char")', 'B("int")']
BITS = [("int", 1), ("int", 3), ("int", 9), ("int", 17), ("uint", 31), ("int", 32), ("char", 2), ("uchar", 7),
        ("short", 5), ("ushort", 15), ("long", 33), ("llong", 40), ("ulong", 3), ("int", 0), ("char", 0)]


def run(rep):
    deep = rep.thorough()
    rep.rule = ("translation units of Unit.tla: every struct or union of at most 3 members over %d bit-fields and %d "
                "types, and random units with bit-fields; only those whose runs of bit-fields have one aligned storage "
                "unit (Representable of Layout.tla). Each named bit-field is stored to and read back over a background "
                "of zeros and of ones; non-trivial: has two bit-fields" % (len(BITS), len(SMALL)))
    jobs = [units.bfs(units.HOST, SMALL, ["bits", "union"] + (["pack"] if deep else []),
                      bits=BITS if deep else BITS[:4] + BITS[6:12:2] + BITS[13:14], fields=3, heap="6g")]
    jobs.append(units.bfs("i386-linux", SMALL[:1], ["bits"], bits=BITS[:10] if deep else BITS[1:4] + BITS[8:9],
                          fields=3, heap="4g"))
    num = 12000 if deep else 900
    jobs += units.sim_jobs(num, vk.SEED, features=FEATURES, targets=[units.HOST], decls=6, fields=7)
    jobs += units.sim_jobs(num // 2, vk.SEED + 500, features=FEATURES, targets=["i386-linux"], decls=6, fields=6)
    r = rep.tlc(vk.simulate(jobs))
    c = units.coverage(rep, r.cases)
    units.need(c, "record union", "packed record", "bit-field", "zero width bit-field", "unnamed member")
    rep.replay(units.bits, units.renamed(r.cases), show=units.source, key=units.shape,
               nontrivial=lambda c: any(sum(f["w"] > 0 for f in x["fields"]) > 1
                                        for x in list((c["rec"] or {}).values()) + list(c["anon"] or [])))
    rep.assumptions = ["System V bit-field rules (x86-64 and i386); little endian",
                       "the specification's layout rules agree with clang on every case (checked on each)"]
