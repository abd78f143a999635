"""C16: instances of generated classes are initialised, converted and printed right."""
import collections

import instances
import units
import vk

TECHNIQUE = ("TLA+ state machine of instances as memory, bit by bit, in the specified layout; histories of constructions, assignments, pointers and "
             "bindings simulated by TLC and replayed on the generated classes, every leaf and as_dict() compared after each operation")
NOTE = ("Histories of up to 10 operations on 4 instances of random records and unions with nested, unnamed, packed and bit-field members; "
        "positional and keyword arguments, surplus and repeated ones, callbacks bound, unbound and null.")
FEATURES = ["union", "tagtd", "fntd", "namedbits", "pack", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "anontypedef", "enum", "fnptr", "bits"]
INV = ["LayoutOK", "FrameOK", "ApartOK", "RefusedOK", "IEmit"]


def consts(sim=True, ops=10, objs=4, leaves=24, size=96, **kw):
    c = units.consts(**dict(dict(features=FEATURES, decls=4, fields=5, depth=2, sim=sim), **kw))
    return dict(c, MaxOps=ops, MaxObjs=objs, MaxLeaves=leaves, MaxSize=size)


def run(rep):
    deep = rep.thorough()
    rep.rule = "histories of Instances.tla; non-trivial: an instance is changed after it was made, or an argument list is refused"
    small = dict(features=["union"], decls=1, fields=2, depth=0, types='={B("schar"), B("ushort")}', bits="={}")
    rep.tlc(vk.tlc("Instances", consts(sim=False, ops=2, objs=1, leaves=4, **small), INV[:-1], spec="ISpec"))
    bits = dict(features=["bits"], decls=1, fields=2, depth=0, types='={B("uchar")}', bits='={<<"uint", 3>>, <<"int", 7>>}')
    rep.tlc(vk.tlc("Instances", consts(sim=False, ops=2, objs=1, leaves=4, **bits), INV[:-1], spec="ISpec"))
    num = 30000 if deep else 3000
    js = [dict(module="Instances", consts=consts(decls=1 + i % 6, fields=3 + i % 3), sim=k, depth=300, seed=(vk.SEED + 160) * 1000 + i, invariants=INV, spec="ISpec")
          for i, k in enumerate(vk.split(num, 8))]
    # records with many gaps
    js.append(dict(module="Instances", consts=consts(decls=1, features=["gaps"], ops=4, objs=2, leaves=48, size=480), sim=300 if deep else 60, depth=300,
                   seed=(vk.SEED + 161) * 1000, invariants=INV, spec="ISpec"))
    cases = rep.tlc(vk.simulate(js)).cases
    for i, c in enumerate(cases):
        c["alias"] = instances.ALIASES[i % len(instances.ALIASES)]
    c = collections.Counter()
    for case in cases:
        for r in (case["rec"] or {}).values():
            fs = r["fields"]
            c["a record with more than ten gaps"] += sum(a["off"] + a["bits"] < b["off"] for a, b in zip(fs, fs[1:])) > 10
        for op in case["ops"]:
            c["operation " + op["op"]] += 1
            c["refused " + op["bad"]] += op["op"] in ("new", "bind") and op["bad"] != "none"
            c["positional"] += op["op"] == "new" and bool(op["pos"])
            c["keyword"] += op["op"] == "new" and bool(op["kw"])
            c["to an instance"] += op["op"] == "point" and op["to"] > 0
            if op["op"] == "bind":
                for a in op["pos"]:
                    c["callback " + {(): "no", (0,): "unbound", (1,): "null", (2,): "bound"}[tuple(a["val"])]] += 1
            for o in op["after"]:
                for leaf in o:
                    c["leaf " + leaf["kind"]] += 1
                    c["deep leaf"] += len(leaf["path"]) > 2
                    c["in an unnamed record"] += any(s.startswith("?") for s in leaf["path"])
    rep.cov["histories"] = dict(sorted(c.items()))
    units.need(c, "operation new", "operation set", "operation member", "operation point", "operation through", "operation bind", "refused surplus",
               "refused twice", "refused unknown", "callback bound", "callback null", "callback unbound", "to an instance", "in an unnamed record",
               "a record with more than ten gaps")
    rep.replay(instances.check, units.renamed(cases), show=instances.show, nontrivial=lambda k: any(
        op["op"] in ("set", "member", "point", "through") or op["op"] == "new" and op["bad"] != "none" for op in k["ops"]))
    rep.assumptions = ["classes of the native target: emulated pointers cannot be instantiated",
                       "records without long doubles and unnamed bit-fields; in unions integers only, whose values the bits determine"]
