"""C12: what is generated follows the files that the declarations come from."""
import collections
import os
import tempfile
import zlib

import p_c05
import p_c11
import project
import render
import units
import vk

TECHNIQUE = ("TLA+ state machine of translation units spread over files that include each other, and of the choice of files to translate; "
             "simulated trees written to disk and translated with and without -i, names, meaning and completeness compared")
NOTE = ("Random trees of up to 6 files in several directories, nested and repeated (guarded) inclusions in any place, 1 to 3 files translated "
        "in any order, given by absolute, relative and unnormalised paths; macros and variables with values from other files.")
FEATURES = ["union", "pack", "nest", "inner", "fwd", "implicit", "typedef", "anontypedef", "enum", "fnptr", "func", "object", "var", "macro", "again",
            "macroof", "varof"]
DIRS = ["", "inc", "inc/deep", "other"]


def place(f, root):
    # files of the same name in different directories, for the most part
    name = "main.c" if f == 1 else "h.h" if f < 6 else "h%d.h" % f
    return os.path.normpath(os.path.join(root, DIRS[f * 7 % 4] if f > 1 else "", name))


def write(case, root):
    q = units.Quals(repr(case["target"]))
    r = render.Unit(case, qual=q, each=q.decl)
    paths = []
    for f, body in enumerate(case["files"], 1):
        path = place(f, root)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        lines = []
        for e in body:
            if e["k"] == "i":
                lines.append('#include "%s"' % os.path.relpath(place(e["i"], root), os.path.dirname(path)))
            elif case["decls"][e["i"] - 1]["d"] != "inner":
                lines.append(r.decl(case["decls"][e["i"] - 1]))
        if f > 1:
            lines = ["#ifndef GUARD_%d" % f, "#define GUARD_%d" % f] + lines + ["#endif"]
        with open(path, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        paths.append(path)
    return paths


def spelled(path, how):
    """another way to write the path"""
    d, name = os.path.split(path)
    return [path, os.path.relpath(path), os.path.join(d, ".", name), os.path.join(d, "..", os.path.basename(d), name)][how % 4]


def links(case):
    """how symbolic links are used: not at all, for the directory of the tree, for a source that no file includes"""
    return ("", "", "directory", "source")[zlib.crc32(repr((case["files"], case["sources"], case["units"])).encode()) % 4]


def translate(case, paths, root, name, extra):
    from ctypeslib import clang2py
    out = os.path.join(root, name)
    opts = render.TARGETS[case["target"]]
    argv = [spelled(paths[s - 1], i + s) for i, s in enumerate(case["sources"])] + ["-o", out, "-k", "cdefmstu"] + extra
    if opts:
        argv += ["--clang-args=" + " ".join(opts)]
    rc = clang2py.main(argv)
    if rc:
        raise RuntimeError("clang2py ends with %r" % rc)
    with open(out) as fh:
        return vk.load(fh.read())


def check(case):
    vk.import_ctypeslib()
    root = tempfile.mkdtemp(dir=vk.scratch())
    how = links(case)
    if how == "directory":
        os.symlink(root, root + ".link")
        root += ".link"
    paths = write(case, root)
    if how == "source":
        included = {e["i"] for b in case["files"] for e in b if e["k"] == "i"}
        for s in set(case["sources"]) - included:
            path = os.path.join(os.path.dirname(paths[s - 1]), "link_" + os.path.basename(paths[s - 1]))
            os.symlink(os.path.basename(paths[s - 1]), path)
            paths[s - 1] = path
    whole = translate(case, paths, root, "whole.py", ["-i"])
    part = translate(case, paths, root, "part.py", [])
    return compare(case, whole, part)


def records(case):
    return {"%s_%s" % (u, t) for u, t in case["inc"] or []} | {"%s_%s" % (r["u"], t) for t, r in (case["rec"] or {}).items()}


def guard(n):
    return n.startswith("GUARD_")


def compare(case, whole, part):
    out = []
    everything = p_c05.declared(case)
    seen = p_c05.declared(dict(case, decls=[case["decls"][i - 1] for i in case["units"]]))
    names = {}
    for which, ns in (("with -i", whole), ("without -i", part)):
        names[which] = [n for n in ns.get("__all__", ()) if not guard(n)]
        for n, k in collections.Counter(names[which]).items():
            if k > 1:
                out.append("%s: __all__ lists %s %d times" % (which, n, k))
            if n not in ns:
                out.append("%s: __all__ lists %s, which is not defined" % (which, n))
    recs = records(case)
    for n in sorted(seen):
        if n not in whole or n not in names["with -i"]:
            out.append("with -i: %s is missing" % n)
    for n in sorted(set(names["with -i"])):
        base = n[:-len("__enumvalues")] if n.endswith("__enumvalues") else n
        if base in everything - seen - recs:
            out.append("with -i: %s comes from a file that is not read" % n)
    for tag in case["defined"]:
        n = "%s_%s" % (case["rec"][tag]["u"], tag)
        if n in whole and not hasattr(whole[n], "_fields_"):
            out.append("with -i: %s is not complete" % n)
    values = [case["decls"][i - 1] for i in case["mine"]]
    must, may, full = set(case["must"]), set(case["may"]), set(case["full"])
    for n in sorted(must):
        if n not in part or n not in names["without -i"]:
            out.append("%s is missing" % n)
    a, b = project.Meaning(whole, everything | recs), project.Meaning(part, everything | recs)
    reached = set()
    for n in (must | may) & set(part):
        reached |= b.reach(part[n])
    defined = {d["name"] for d in values if d["d"] == "var"}
    extern = {d["name"] for d in values if d["d"] == "ext"} - defined
    incomplete = {"%s_%s" % (r["u"], t) for t, r in (case["rec"] or {}).items() if t not in full}
    for n in sorted(set(names["without -i"])):
        if n not in part:
            continue
        base = n[:-len("__enumvalues")] if n.endswith("__enumvalues") else n
        known = isinstance(part[n], type) and part[n] in reached
        if (n in everything or base in everything or n in recs) and base not in may and not known:
            out.append("%s is neither in the files nor needed" % n)
        elif n not in everything | recs and base not in everything and not known:
            out.append("%s is neither in the files nor needed" % n)
        if n not in everything | recs and base not in everything:
            continue  # the name of an anonymous class: what it is shows where it is used
        if n not in whole:
            out.append("%s is not there with -i" % n)
        elif n in extern:
            continue
        elif n in incomplete and not hasattr(part[n], "_fields_"):
            continue
        elif a.name(n) != b.name(n):
            out.append("%s is %s, with -i %s" % (n, b.name(n), a.name(n)))
    for d in values:
        if d["d"] in ("mac", "var") and d["name"] in part:
            for which, ns in (("with -i", whole), ("without -i", part)):
                if ns.get(d["name"]) != d["val"]:
                    out.append("%s: %s is %r, expected %r" % (which, d["name"], ns.get(d["name"]), d["val"]))
    return out


def show(case):
    root = tempfile.mkdtemp(dir=vk.scratch())
    paths = write(case, root)
    text = ["// clang2py " + " ".join(os.path.relpath(paths[s - 1], root) for s in case["sources"])]
    for p in paths:
        with open(p) as fh:
            text += ["// " + os.path.relpath(p, root), fh.read()]
    return "\n".join(text)


def jobs(num, seed, parts, **kw):
    c = dict(units.consts(FEATURES, **kw), MaxPatterns=1, MaxFiles=6)
    return [dict(module="Files", consts=c, sim=k, depth=600, seed=seed * 1000 + i, spec="FSpec", invariants=["FilesOK", "FEmit"])
            for i, k in enumerate(vk.split(num, parts)) if k]


def run(rep):
    deep = rep.thorough()
    rep.rule = "file trees and sources of Files.tla; non-trivial: some declarations are in other files"
    js = jobs(14000 if deep else 1400, vk.SEED + 120, 6, decls=12, fields=3)
    js += jobs(2000 if deep else 200, vk.SEED + 121, 2, decls=10, fields=3, targets=units.FOREIGN)
    cases = rep.tlc(vk.simulate(js)).cases
    c = units.coverage(rep, cases)
    units.need(c, *["declaration " + k for k in ("fwd", "rec", "inner", "td", "en", "fn", "var", "mac", "ext", "obj")])
    n = collections.Counter()
    for case in cases:
        n["files %d" % len(case["files"])] += 1
        n["sources %d" % len(set(case["sources"]))] += 1
        n["a file twice"] += len(set(case["sources"])) < len(case["sources"])
        n["a header alone"] += 1 not in case["sources"]
        n["left out"] += len(case["units"]) > len(case["mine"])
        own = {case["decls"][i - 1].get("name") or case["decls"][i - 1].get("tag") for i in case["mine"]}
        n["needed from another file"] += bool({x.split("_", 1)[-1] for x in case["must"]} - own)
        n["value from another file"] += any(case["decls"][i - 1].get("of") not in own | {None} for i in case["mine"])
        n["not complete"] += len(case["defined"]) < len(case["rec"] or {})
        n["symbolic link: " + links(case)] += 1
        n["again"] += sum(e["k"] == "i" for b in case["files"] for e in b) >= len(case["files"])
    rep.cov["trees"] = dict(sorted(n.items()))
    units.need(n, "sources 1", "sources 2", "sources 3", "a file twice", "a header alone", "left out", "needed from another file",
               "value from another file", "not complete", "again", "files 6")
    rep.replay(check, units.renamed(cases), show=show, key=lambda c: units.shape(c) + repr((c["files"], c["sources"])),
               nontrivial=lambda c: len(c["units"]) > len(c["mine"]))
    rep.assumptions = ["a typedef between a selected declaration and a type it needs may be there or not",
                       "a record that only another of the translated units completes may stay incomplete"]
