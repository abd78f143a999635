"""C17: comments, docstrings and locations change nothing but comments."""
import collections

import notes
import units
import vk

TECHNIQUE = ("TLA+ state machine of units with comments and of the options that write about declarations; TLC-enumerated and simulated units "
             "translated with and without them, meanings compared, and what the options promise looked for")
NOTE = ("All subsets of six options; comments of 8 styles and 18 texts made to break out of comments and docstrings; odd names of sources; "
        "the command in an ASCII locale.")
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "anontypedef", "enum", "fnptr", "func", "var", "object", "macro", "again"]
INV = ["LayoutOK", "NotesOK", "NEmit"]


def run(rep):
    deep = rep.thorough()
    rep.rule = "annotated units of Notes.tla; non-trivial: there is a comment and an option"
    small = units.consts(["fwd", "func", "typedef"], decls=1, fields=1, depth=0, sim=False, types='={B("int")}')
    jobs = [dict(module="Notes", consts=small, invariants=INV, spec="NSpec")]
    num = 12000 if deep else 1100
    jobs += [dict(module="Notes", consts=units.consts(FEATURES, decls=3 + 2 * (i % 4), targets=[units.HOST] if i % 3 else units.FOREIGN), sim=k, depth=400,
                  seed=(vk.SEED + 170) * 1000 + i, invariants=INV, spec="NSpec") for i, k in enumerate(vk.split(num, 7))]
    cases = rep.tlc(vk.simulate(jobs)).cases
    c = units.coverage(rep, cases)
    for i, case in enumerate(cases):
        # processes of their own take long
        case["place"]["ascii"] = case["place"]["ascii"] and (deep or i % 12 == 0)
        for o in case["opts"]:
            c["option " + o] += 1
        for x in case["notes"]:
            c["style " + x["style"]] += 1
            c["text " + x["text"]] += 1
        for k in ("said", "silent", "located", "described"):
            c[k] += len(case[k])
        c["path " + case["place"]["path"]] += 1
        c["ascii"] += case["place"]["ascii"]
    rep.cov["notes"] = {k: v for k, v in sorted(c.items())}
    units.need(c, "said", "silent", "located", "described", "ascii", *["text " + t for t in notes.TEXTS])
    rep.replay(notes.check, units.renamed(cases), show=notes.show, nontrivial=lambda k: bool(k["opts"]) and any(x["style"] != "none" for x in k["notes"]))
    rep.assumptions = ["names of sources have no newlines"]
