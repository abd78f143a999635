"""C03: the data model of the target."""
import ctypes
import random
import re

import project
import render
import units
import vk

TECHNIQUE = ("TLA+ data models of six targets; TLC-enumerated scalar types in every position and simulated units, "
             "replayed into the generator with equivalent target options")
NOTE = ("Every scalar type in every position (member, element, pointee, typedef, argument) on every target, with each "
        "spelling of the target option, plus random units; sizes, signs, header comments, and loading on the host.")
FEATURES = ["union", "fwd", "typedef", "anontypedef", "enum", "fixed", "int128", "fnptr", "func", "var"]
SPELLINGS = {"x86_64-linux": [[], ["-target", "x86_64-linux"], ["-m64"], ["--target=x86_64-linux-gnu"]],
             "i386-linux": [["-target", "i386-linux"], ["-m32"], ["--target=i686-linux-gnu"], ["-target", "i386-linux", "-g"]],
             "x86_64-win32": [["-target", "x86_64-pc-win32"], ["--target=x86_64-pc-windows-msvc"], ["-O1", "-target", "x86_64-pc-win32"]],
             "i386-win32": [["-target", "i386-win32"], ["--target=i686-pc-windows-msvc"]],
             "arm-linux": [["-target", "arm-linux-gnueabihf"], ["--target=armv7-linux-gnueabi"]],
             "aarch64-linux": [["-target", "aarch64-linux-gnu"], ["--target=aarch64-linux"]]}
WORD = {"x86_64-linux": 8, "i386-linux": 4, "x86_64-win32": 4, "i386-win32": 4, "arm-linux": 4, "aarch64-linux": 8}
LD = {"x86_64-linux": 16, "i386-linux": 12, "x86_64-win32": 8, "i386-win32": 8, "arm-linux": 8, "aarch64-linux": 16}


def check(case):
    src = units.source(case)
    t = case["target"]
    opts = random.Random(src).choice(SPELLINGS[t])
    units.oracle(case, src, opts)
    text = vk.generate(src, opts, kinds="cdefmstu")
    out = []
    for what, value in (("WORD_SIZE", WORD[t]), ("POINTER_SIZE", units.PTR[t]), ("LONGDOUBLE_SIZE", LD[t])):
        if re.findall(r"^# *%s is: *(\S+) *$" % what, text, re.M) != [str(value)]:
            out.append("the header does not say that %s is %d (%s)" % (what, value, opts))
    ns = vk.load(text)
    for p in units.compare_layout(case, ns) + units.compare_types(case, ns):
        out.append("%s (%s)" % (p, opts))
    for name, p in (case["exp"]["tds"] or {}).items():
        z = case["sizes"].get(name, 0)
        if z > 0 and name in ns and ctypes.sizeof(ns[name]) != z:
            out.append("sizeof %s is %d, expected %d (%s)" % (name, ctypes.sizeof(ns[name]), z, opts))
    return out


def small():
    out = []
    for s in ["char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float",
              "double", "ldouble", "bool"]:
        b = 'B("%s")' % s
        out += [b, "Arr(%s, 2)" % b, "Ptr(%s)" % b, "Ptr(Ptr(%s))" % b, "Arr(Ptr(%s), 2)" % b, "Ptr(Arr(%s, 3))" % b,
                "Ptr(Fn(%s, <<%s>>))" % (b, b)]
    return out + ["Ptr(Void)", "Ptr(Fn(Void, <<>>))"]


def run(rep):
    deep = rep.thorough()
    rep.rule = "units of Unit.tla on all targets and with all spellings of the target; non-trivial: a target other than the host"
    jobs = []
    for t in sorted(units.PTR):
        jobs.append(units.bfs(t, small(), ["typedef", "union"], fields=1))
        if units.PTR[t] == 8:
            jobs.append(units.bfs(t, ['B("i128")', 'B("u128")', 'Arr(B("i128"), 2)', 'Ptr(B("u128"))'],
                                  ["typedef", "int128"], fields=1))
        jobs.append(units.bfs(t, ['B("int")'], ["fixed", "typedef", "graph"], decls=2, fields=1))
    num = 9000 if deep else 700
    for i, t in enumerate(sorted(units.PTR)):
        jobs += units.sim_jobs(num // 6, vk.SEED + 30 + 100 * i, features=FEATURES, targets=[t], decls=8, fields=4, depth=2,
                               parts=2 if deep else 1)
    r = rep.tlc(vk.simulate(jobs))
    c = units.coverage(rep, r.cases)
    units.need(c, "declaration en", "declaration fn", "type f", *["target " + t for t in units.PTR])
    for want in ('"int64_t"', '"i128"'):
        if not any(want in str(case).replace("'", '"') for case in r.cases):
            raise vk.Machinery("no case had %s" % want)
    rep.replay(check, units.renamed(r.cases), show=units.source, key=units.shape, nontrivial=lambda c: c["target"] != units.HOST)
    rep.assumptions = ["six targets of clang 18", "the specification agrees with clang on each case (checked on each)"]
