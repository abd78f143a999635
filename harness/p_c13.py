"""C13: translations are deterministic and independent of each other."""
import collections
import os
import random
import tempfile

import render
import sessions
import units
import vk

TECHNIQUE = ("TLA+ state machine of translations that share a process, with requirement and excluded design model-checked; TLC-enumerated "
             "and simulated schedules replayed by switching between translators at calls, texts and modules compared with those of new processes")
NOTE = ("All schedules of 2 translators in 4 quanta over pairs of configurations, random histories of up to 6 translations (9 configurations, "
        "5 entry points, shared configurations, failing ones, loaded modules) in processes with different hash seeds.")
FEATURES = ["union", "tagtd", "fntd", "flex", "pack", "nest", "inner", "fwd", "implicit", "typedef", "fixed", "anontypedef", "enum", "fnptr", "func", "var", "macro", "again"]
FAULTS = ["none", "syntax", "header", "missing"]
ENTRIES = ["string", "file", "list", "command", "namespace"]
EXTRA = """
#ifdef EXTRA
struct Extra { int extra; void *next; };
#endif
char *str%(n)d = "text %(n)d";
const char txt%(n)d[] = "t%(n)d";
int arr%(n)d[3] = {%(n)d, 2};
#define STR%(n)d "string %(n)d"
#define OLD%(n)d (EXTRA0 - 1)
#define EXTRA0 %(n)d
struct { int a; struct { int b; } c; } anonymous%(n)d;
struct list%(n)d { struct list%(n)d *next; long double ld; wchar_t_%(n)d w; };
"""
WCHAR = "typedef __WCHAR_TYPE__ wchar_t_%d;\n"


def write(root, pool):
    """the input files: each unit, and with each of the mistakes"""
    for i, case in enumerate(pool, 1):
        lines = units.source(case).splitlines()
        text = "\n".join([(WCHAR % i).strip()] + lines) + EXTRA % {"n": i}
        for fault in FAULTS:
            body = text
            if fault == "missing":
                continue
            if fault == "syntax":
                body = text + "struct broken { int };  int 5x;\n"
            elif fault == "header":
                body = '#include "no_such_header.h"\n' + text
            with open(os.path.join(root, "u%d_%s.c" % (i, fault)), "w") as fh:
                fh.write(body)


def consts(pool, quanta, jobs, **kw):
    return dict(dict(Units=pool, Configs=set(sessions.CONFIGS), Entries=set(ENTRIES), Faults=set(FAULTS), Quanta=quanta, MaxJobs=jobs,
                     MaxOpen=3, SharedTables=False, Random=True), **kw)


def histories(rep, num, seed, parts, pool, **kw):
    js = [dict(module="Sessions", consts=consts(pool, 10, 2 + i % 5, **kw), sim=k, depth=400, seed=seed * 1000 + i,
               invariants=["SessionsOK", "Independent", "Emit"]) for i, k in enumerate(vk.split(num, parts)) if k]
    return rep.tlc(vk.simulate(js)).cases


def compare(case, got, alone):
    out = []
    if "broken" in got:
        return ["the history does not end: " + got["broken"]]
    for j, job in enumerate(case["jobs"], 1):
        want, have = alone[sessions.key(job)], got["results"][str(j)]
        expect = "refused" if case["product"][j - 1] == ["refused"] else "text"
        if want[0] != expect:
            out.append("translation %d (%s) alone is %s: %s" % (j, sessions.key(job), want[0], want[1][:200]))
        elif have[0] != want[0]:
            out.append("translation %d (%s) is %s, alone %s: %s" % (j, sessions.key(job), have[0], want[0], (have if have[0] != "text" else want)[1][:200]))
        elif have[0] == "text" and have[1] != want[1]:
            out.append("translation %d (%s) differs from the one alone: %s" % (j, sessions.key(job), difference(have[1], want[1])))
    return out


def difference(a, b):
    a, b = a.splitlines(), b.splitlines()
    for x, y in zip(a, b):
        if x != y:
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "%r instead of %r" % (x[max(0, k - 60):k + 120], y[max(0, k - 60):k + 120])
    return "%d lines instead of %d" % (len(a), len(b))


def run(rep):
    deep = rep.thorough()
    rep.rule = "histories of Sessions.tla; non-trivial: two jobs with different configurations, or with a mistake among them"
    vk.import_ctypeslib()
    root = os.path.join(vk.scratch(), "inputs")
    os.makedirs(root)
    npool = 40 if deep else 14
    pool = rep.tlc(vk.simulate(units.sim_jobs(npool, vk.SEED + 130, parts=4, features=FEATURES, decls=10))).cases[:npool]
    write(root, pool)
    # the requirement is about something: the excluded design is told apart
    small = dict(Units=1, Entries={"file"}, Faults={"none", "syntax"}, Quanta=4, MaxJobs=2, MaxOpen=2, Random=False)
    bad = vk.tlc("Sessions", consts(1, 4, 2, **dict(small, SharedTables=True)), ["Independent"], expect_ok=False)
    if bad.violated != "Independent":
        raise vk.Machinery("the excluded design is not told apart")
    rep.cov["excluded design"] = "violates Independent, found by TLC"
    # all schedules of two jobs, for all pairs of some configurations
    confs = set(sessions.CONFIGS) if deep else {"comments", "i386"}
    every = rep.tlc(vk.tlc("Sessions", consts(1, 4, 2, **dict(small, Faults={"none"}, Configs=confs)), ["SessionsOK", "Independent", "Emit"],
                           heap="6g")).cases
    every = [c for c in every if all(j["own"] for j in c["jobs"]) or deep]
    if len(every) > 12000:
        random.Random(vk.SEED).shuffle(every)
        every = every[:12000]
    cases = histories(rep, 3000 if deep else 330, vk.SEED + 131, 8, npool)
    cases += histories(rep, 1000 if deep else 120, vk.SEED + 132, 4, npool, Faults={"none"}, Units=2)
    cases = every + cases
    procs = vk.CPUS
    p = sessions.Pool([0] + list(range(1, procs)))
    try:
        # each job alone, in a new process
        keys = {}
        for c in cases:
            for j in c["jobs"]:
                keys.setdefault(sessions.key(j), j)
        names = sorted(keys)
        one = [{"start": 1}, {"op": "start", "job": 1}]
        msgs = [(i % procs, {"root": root, "calls": None, "quanta": 1, "case":
                             {"jobs": [dict(keys[k], own=True)], "history": [{"op": "start", "job": 1}]}}) for i, k in enumerate(names)]
        alone, calls = {}, {}
        for k, r in zip(names, p.run(msgs)):
            if "broken" in r:
                rep.violation(["%s does not end: %s" % (k, r["broken"])], {"input": k})
                r = {"results": {"1": ["broken", r["broken"]]}, "calls": {"1": 0}}
            alone[k] = r["results"]["1"]
            calls[k] = r["calls"]["1"]
        # what the modules are, alone
        msgs, want = [], {}
        loaded = sorted({sessions.key(c["jobs"][e["job"] - 1]) for c in cases for e in c["history"] if e["op"] == "load"})
        msgs = [(i % procs, {"root": root, "calls": None, "quanta": 1, "case":
                             {"jobs": [dict(keys[k], own=True)], "history": [{"op": "start", "job": 1}, {"op": "finish", "job": 1},
                                                                             {"op": "load", "job": 1}]}}) for i, k in enumerate(loaded)]
        for k, r in zip(loaded, p.run(msgs)):
            want[k] = (r.get("modules") or {}).get("1")
        msgs = [((i + 1) % procs, {"root": root, "calls": {sessions.key(j): calls[sessions.key(j)] for j in c["jobs"]},
                                   "quanta": 4 if c in every[:1] or i < len(every) else 10, "case": c}) for i, c in enumerate(cases)]
        n = collections.Counter()
        for c, r in zip(cases, p.run(msgs)):
            problems = compare(c, r, alone)
            for j, m in (r.get("modules") or {}).items():
                k = sessions.key(c["jobs"][int(j) - 1])
                n["modules compared"] += 1
                if want.get(k) is not None and m != want[k]:
                    problems.append("the module of translation %s (%s) is not what it is alone" % (j, k))
            confs = {j["cfg"] for j in c["jobs"]}
            rep.count(repr((c["jobs"], [(e["op"], e["job"]) for e in c["history"]])),
                      len(confs) > 1 or any(j["fault"] != "none" for j in c["jobs"]))
            rep.traces += 1
            if problems:
                rep.violation(problems, {"input": show(c, pool), "case": c})
            elif len(rep.samples) < 2 and len(c["jobs"]) > 3:
                rep.sample(describe(c))
            switches = sum(a["job"] != b["job"] for a, b in zip(c["history"], c["history"][1:]))
            n["switches"] += switches
            n["histories with a mistake"] += any(j["fault"] != "none" for j in c["jobs"])
            n["shared configuration"] += any(not j["own"] for j in c["jobs"])
            n["the same input again"] += len({j["unit"] for j in c["jobs"]}) < len(c["jobs"])
            for j in c["jobs"]:
                n["entry " + j["entry"]] += 1
                n["configuration " + j["cfg"]] += 1
                n["mistake " + j["fault"]] += 1
    finally:
        p.close()
    rep.cov["histories"] = dict(sorted(n.items()))
    rep.cov["schedules enumerated"] = len(every)
    rep.cov["hash seeds"] = procs
    units.need(n, "modules compared", "switches", "shared configuration", "the same input again", *["entry " + e for e in ENTRIES],
               *["mistake " + f for f in FAULTS], *["configuration " + c for c in sessions.CONFIGS])
    rep.assumptions = ["translators are switched between at calls of functions of ctypeslib, as threads or generators could"]


def describe(c):
    return ["%d: %s" % (i, sessions.key(j)) for i, j in enumerate(c["jobs"], 1)] + [
        " ".join("%s%d" % (e["op"][0], e["job"]) for e in c["history"])]


def show(c, pool):
    out = describe(c)
    for u in sorted({j["unit"] for j in c["jobs"]}):
        out += ["// unit %d" % u, units.source(pool[u - 1])]
    return "\n".join(out)
