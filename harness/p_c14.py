"""C14: bad inputs are refused, never half translated."""
import collections
import random

import asking
import units
import vk

TECHNIQUE = ("TLA+ state machine of calls as pipelines of stages that may refuse, model-checked with its files and messages; TLC-enumerated and "
             "simulated sequences of calls replayed, ends, outputs, messages and later modules compared")
NOTE = ("Every mistake (48 kinds, of arguments, libraries, outputs, compiler options and of the source at 5 positions) with every entry point and "
        "destination; random sequences of 5 calls, in one process or by the command.")


def run(rep):
    deep = rep.thorough()
    rep.rule = "sequences of calls of Calls.tla; non-trivial: one of them is refused"
    vk.import_ctypeslib()
    n = 40 if deep else 12
    pool = asking.pool(rep, n, vk.SEED + 140)
    # that every call ends, for a few mistakes of each stage
    few = {"none", "warning", "option", "library", "no such directory", "full device", "syntax"}
    rep.tlc(vk.tlc("Calls", asking.consts(1, 2, False, Configs={"plain"}, Faults=few), asking.INV, props=["Ends"]))
    single = rep.tlc(vk.tlc("Calls", asking.consts(1, 1, False, Configs={"macros"}), asking.INV)).cases
    for i, c in enumerate(single):
        c["calls"][0].update(unit=1 + i % n, at=i // 7 % 5)
        if not deep and c["calls"][0]["end"] == "refused" and i % 3:
            c["calls"][0]["proc"] = False
    pairs = rep.tlc(vk.tlc("Calls", asking.consts(1, 2, False, Configs={"macros"}, Faults=few), asking.INV)).cases
    pairs = [c for c in pairs if c["calls"][1]["end"] == "ok"]
    random.Random(vk.SEED).shuffle(pairs)
    if not deep:
        pairs = pairs[:150]
    for c in pairs:
        for x in c["calls"]:
            x["proc"] = False
    num = 6000 if deep else 320
    js = [dict(module="Calls", consts=asking.consts(n, 5, True), sim=k, depth=200, seed=(vk.SEED + 141) * 1000 + i, invariants=asking.INV)
          for i, k in enumerate(vk.split(num, 7))]
    more = rep.tlc(vk.simulate(js)).cases
    r = random.Random(vk.SEED)
    for c in more:
        for x in c["calls"]:
            x["proc"] = x["proc"] and r.random() < 0.1
    cases = asking.attach(single + pairs + more, pool)
    c = collections.Counter()
    for case in cases:
        for x in case["calls"]:
            c["fault " + x["fault"]] += 1
            c["entry " + x["entry"]] += 1
            c[x["end"]] += 1
            c["own process"] += x["proc"]
        ends = [x["end"] for x in case["calls"]]
        c["after a refusal"] += any(a == "refused" and b == "ok" for a, b in zip(ends, ends[1:]))
    rep.cov["calls"] = dict(sorted(c.items()))
    units.need(c, "own process", "after a refusal", "ok", "refused", *["fault " + f for f in asking.FAULTS])
    rep.replay(asking.check, cases, show=asking.show, key=lambda k: repr([(x["unit"], asking.describe(x), x["at"]) for x in k["calls"]]),
               nontrivial=lambda k: any(x["end"] == "refused" for x in k["calls"]), limit=90)
    rep.assumptions = ["mistakes inside of function bodies are not looked at: the bodies are skipped on purpose",
                       "the output file of a refused call may be left empty"]
