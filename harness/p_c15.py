"""C15: command, API, file and standard input give the same module."""
import collections
import random

import units
import vk
import ways

TECHNIQUE = ("TLA+ specification of what compiler options and entry points mean (definitions, header search, standard, target, layout, visibility), "
             "model-checked; TLC-enumerated and simulated sources and options replayed through ten ways to ask, modules compared with it and each other")
NOTE = ("Up to 6 options of 12 kinds and 6 source parts, current directories, ends of lines, encodings and file names, each by string, file, list, "
        "command and standard input, to a stream, a namespace, the standard output and a file; temporary files looked for.")
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "nest", "inner", "fwd", "typedef", "fixed", "anontypedef", "enum", "fnptr", "func", "var", "again"]
INV = ["FilesAgree", "OthersAgree", "VisibleOK", "Emit"]
KINDS = ["D", "U", "Dfun", "path", "forced", "std", "target", "enums", "char", "wchar", "pack", "werror"]


def consts(opts, parts, rnd, kinds=KINDS):
    return dict(MaxOpts=opts, MaxParts=parts, Random=rnd, Kinds=set(kinds))


def run(rep):
    deep = rep.thorough()
    rep.rule = "options and sources of Ways.tla; non-trivial: there are options and they are not refused by all ways"
    vk.import_ctypeslib()
    # an option changes only what it is about, ways agree
    rep.tlc(vk.tlc("Ways", consts(1, 2, False), INV[:-1], props=["OptionsApart"]))
    if deep:
        rep.tlc(vk.tlc("Ways", consts(2, 1, False), INV[:-1], props=["OptionsApart"]))
    one = rep.tlc(vk.tlc("Ways", consts(1, 1, False), INV)).cases
    pairs = rep.tlc(vk.tlc("Ways", consts(2, 1, False, KINDS if deep else ["D", "U", "enums", "char"]), INV)).cases
    random.Random(vk.SEED).shuffle(pairs)
    pairs = pairs[:6000 if deep else 150]
    if not deep:
        random.Random(vk.SEED).shuffle(one)
        one = one[:150]
    num = 6000 if deep else 500
    js = [dict(module="Ways", consts=consts(6, 6, True), sim=k, depth=40, seed=(vk.SEED + 150) * 1000 + i, invariants=INV)
          for i, k in enumerate(vk.split(num, 7))]
    more = rep.tlc(vk.simulate(js)).cases
    pool = rep.tlc(vk.simulate(units.sim_jobs(60 if deep else 20, vk.SEED + 151, parts=4, features=FEATURES, decls=8))).cases
    r = random.Random(vk.SEED)
    for i, c in enumerate(more):
        kinds = {o["o"]: o.get("v") for o in c["opts"]}
        if "werror" not in kinds and not any(o.get("v") in ("c90", "gnu89", "iso9899:199409") for o in c["opts"]):
            c["unit"] = pool[i % len(pool)]
        if i % (5 if deep else 25) == 0:
            c["processes"] = [r.choice(ways.WAYS[6:])]
    cases = one + pairs + more
    c = collections.Counter()
    for case in cases:
        for o in case["opts"]:
            c["option " + o["o"]] += 1
        for p in case["parts"]:
            c["part " + p["p"]] += 1
        for e in case["expect"]:
            c["refused by " + e["entry"] if e["refused"] else "ok by " + e["entry"]] += 1
            c["hidden"] += any(h["kind"] == "absent" for h in e["has"])
        c["with a unit"] += "unit" in case
        c["by its own process"] += "processes" in case
        c["refused by some ways only"] += len({e["refused"] for e in case["expect"]}) > 1
        for k in case["text"]:
            c["text %s %s" % (k, case["text"][k])] += 1
        c["in " + case["cwd"]] += 1
        c["with -i" if case["includes"] else "without -i"] += 1
    rep.cov["ways"] = dict(sorted(c.items()))
    units.need(c, "refused by some ways only", "with a unit", "by its own process", "hidden", "option Dfun", "option iquote", "part use")
    rep.replay(ways.check, cases, show=ways.show, key=lambda k: repr([k["opts"], k["parts"], k["text"], k["cwd"], k["includes"], k["tflag"]]),
               nontrivial=lambda k: bool(k["opts"]) and not all(e["refused"] for e in k["expect"]), limit=90)
    rep.assumptions = ["the directory of a source given as a string is the current directory, and the standard input has none (the rules of clang)",
                       "values of --clang-args hold no spaces: there is no quoting in it"]
