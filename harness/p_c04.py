"""C04: the generated module loads; every record is completed exactly once."""
import ctypes
import json
import os
import tempfile

import emission
import render
import units
import vk

TECHNIQUE = ("TLA+ state machine of module execution; TLC decides whether recorded statement traces of generated "
             "modules are its behaviours; units enumerated and simulated by TLC")
NOTE = ("Every reference graph of up to 3 declarations with 2 members (thorough: 4 declarations), and random units of "
        "all declaration kinds, are translated; each module is executed one statement at a time and the trace is "
        "judged by TLC. The abstract emission order is itself checked for deadlocks over all graphs of 3 records.")
FEATURES = ["union", "tagtd", "fntd", "flex", "namedbits", "pack", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "large", "open", "anontypedef", "enum", "fnptr", "func", "object", "var",
            "macro", "again", "bits"]


def trace_of(case):
    """runs the generator and the module; the trace goes to a file, for TLC"""
    src = units.source(case)
    errs = [d.spelling for d in units.parse_c(src, case["target"]).diagnostics if d.severity > 2]
    if errs:
        raise vk.Machinery("the specification made an invalid unit: %s\n%s" % (errs[:3], src))
    text = vk.generate(src, render.TARGETS[case["target"]], kinds="cdefmstu")
    events, exported, ns = emission.record(text)
    problems = []
    exp = case["exp"]
    names = ["%s_%s" % (r["u"], tag) for tag, r in (exp["recs"] or {}).items()]
    opaque = ["%s_%s" % (u, t) for u, t in case["inc"] or []]
    for n in opaque:
        if n in ns:
            problems += opaque_usable(ns[n], n)
    trace = {"want": {"complete": sorted(names), "opaque": sorted(n for n in opaque if n in ns or mentioned(n, case)),
                      "names": []},
             "events": events, "exported": exported, "id": case["id"]}
    with open(os.path.join(case["dir"], "%d.json" % case["id"]), "w") as fh:
        json.dump(trace, fh)
    return problems


def mentioned(name, case):
    return True


def opaque_usable(cls, name):
    if not isinstance(cls, type) or not issubclass(cls, (ctypes.Structure, ctypes.Union)):
        return ["%s is %r" % (name, cls)]
    p = ctypes.POINTER(cls)()
    return [] if not p else ["a null pointer to %s is true" % name]


def design(rep):
    for eager in (False, True):
        r = vk.tlc("EmissionDesign", dict(Tags={"A", "B", "C"}, Eager=eager), invariants=["SetInv"] +
                   ([] if eager else ["NeverStuck"]), spec="DSpec", props=[] if eager else ["Finishes"],
                   workers=4, heap="6g")
        rep.tlc(r)
        rep.cov["design states, %s" % ("eager" if eager else "two steps")] = r.distinct
    # emitting class and members together can get stuck: the two steps are needed
    r = vk.tlc("EmissionDesign", dict(Tags={"A", "B"}, Eager=True), invariants=["NeverStuck"], spec="DSpec",
               expect_ok=False)
    if r.violated != "NeverStuck":
        raise vk.Machinery("the design check is vacuous: eager emission never gets stuck")


def binding(rep, traces):
    """corrupted traces must be refused"""
    import copy
    bad = []
    for t in traces:
        sets = [i for i, e in enumerate(t["events"]) if e["e"] == "set"]
        deep = [i for i in sets if t["events"][i]["needs"]]
        if not deep or not t["want"]["complete"]:
            continue
        a = copy.deepcopy(t)                      # the members of a class set before those of its member's class
        i = deep[0]
        a["events"].insert(0, {"e": "bind", "names": []})
        first = next((j for j in sets if t["events"][j]["cls"] in t["events"][i]["needs"]), None)
        if first is None:
            continue
        a["events"] = [e for e in t["events"] if e is not t["events"][first]]
        b = copy.deepcopy(t)                      # set twice
        b["events"].append(t["events"][i])
        c = copy.deepcopy(t)                      # never set
        c["events"] = [e for e in t["events"] if not (e["e"] == "set" and e["cls"] == t["want"]["complete"][-1])]
        d = copy.deepcopy(t)                      # exported and never bound
        d["exported"] = t["exported"] + ["nowhere"]
        e = copy.deepcopy(t)                      # bound twice
        e["events"].append(next(x for x in t["events"] if x["e"] == "bind"))
        bad = [a, b, c, d, e]
        break
    if not bad:
        raise vk.Machinery("no trace to corrupt")
    for i, t in enumerate(bad):
        t["id"] = i
    got = emission.validate(rep, bad)
    for i in got:
        if got[i]["verdict"] == ["accepted"]:
            raise vk.Machinery("a corrupted trace (%d) was accepted" % i)
    rep.cov["corrupted traces refused"] = len(bad)


def run(rep):
    deep = rep.thorough()
    rep.rule = ("units of Unit.tla: all reference graphs of small scope, and random units with declarations of every "
                "kind; non-trivial: two records or more")
    design(rep)
    G = ["fwd", "graph"]
    jobs = [units.bfs(units.HOST, ['B("int")'], G, fields=2, decls=3, heap="4g"),
            units.bfs(units.HOST, [], G + ["typedef", "implicit"], fields=1, decls=3, heap="4g"),
            units.bfs(units.HOST, [], G + ["union", "typedef", "again"], fields=1, decls=3, heap="4g"),
            units.bfs(units.HOST, [], G + ["inner"], fields=1, decls=3, depth=1, heap="4g"),
            units.bfs(units.HOST, ['B("int")'], G + ["nest", "inner"], fields=2, decls=1, depth=1, heap="4g")]
    if deep:
        jobs += [units.bfs(units.HOST, [], G + ["typedef"], fields=1, decls=4, heap="6g"),
                 units.bfs(units.HOST, [], G, fields=2, decls=4, heap="8g"),
                 units.bfs(units.HOST, [], G + ["union", "typedef", "implicit"], fields=2, decls=3, heap="6g")]
    num = 10000 if deep else 800
    sims = units.sim_jobs(num, vk.SEED + 40, features=FEATURES, targets=[units.HOST], decls=12, fields=4)
    sims += units.sim_jobs(num // 4, vk.SEED + 540, features=FEATURES, targets=units.FOREIGN, decls=10, fields=4, parts=3)
    r = rep.tlc(vk.simulate(jobs))
    small = r.cases
    if not deep:
        # all the graphs up to naming, one of each shape
        small = list({units.shape(c): c for c in small}.values())
    import random
    random.Random(vk.SEED).shuffle(small)
    rep.cov["graphs enumerated"] = len(r.cases)
    small = small[:40000 if deep else 4000]
    cases = units.renamed(small + rep.tlc(vk.simulate(sims)).cases)
    d = tempfile.mkdtemp(dir=vk.scratch())
    for i, c in enumerate(cases):
        c["id"], c["dir"] = i, d
    count = units.coverage(rep, cases)
    units.need(count, *["declaration " + k for k in ("fwd", "rec", "inner", "td", "en", "fn", "var", "mac", "ext", "obj")])
    rep.replay(trace_of, cases, show=units.source, key=units.shape,
               nontrivial=lambda c: len(c["rec"] or {}) > 1)
    traces = []
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as fh:
            traces.append(json.load(fh))
    got = emission.validate(rep, traces)
    binding(rep, traces)
    for t in traces:
        v = got[t["id"]]
        if v["verdict"] != ["accepted"]:
            at = t["events"][v["at"] - 1] if v["at"] <= len(t["events"]) else "the end"
            rep.violation("the statements of the module break %s at %s" % (", ".join(v["verdict"]), json.dumps(at)),
                          {"input": units.source(cases[t["id"]]), "trace": t, "verdict": v})
    rep.assumptions = ["what a statement binds and completes is observed on the executed module, not read in its text"]
