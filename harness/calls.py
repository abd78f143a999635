"""Calls of the functions of a unit of Unit.tla through the generated module,
into a library that is compiled from it and records what arrives."""
import ctypes
import os
import random
import struct
import subprocess
import tempfile

import project
import render
import units
import vk

ARGS, ROOM = 4, 4096


class Unsupported(Exception):
    pass


def library(case, src, d):
    """compiles the functions of the unit: each stores its arguments and returns what it is told to"""
    body = ["typedef __SIZE_TYPE__ vk_size; void *memcpy(void *, const void *, vk_size);",
            "unsigned char vk_arg[%d][%d], vk_ret[%d]; int vk_who;" % (ARGS, ROOM, ROOM)]
    u = render.Unit(case, qual=units.Quals(repr(case["target"])), each=None)
    u.each = u.qual.decl
    seen = set()
    for i, f in enumerate(x for x in case["decls"] if x["d"] == "fn"):
        if f["name"] in seen:
            continue
        seen.add(f["name"])
        head = u.decl(f)[:-1]
        s = ["vk_who = %d;" % i]
        for j, a in enumerate(f["args"]):
            s.append("memcpy(vk_arg[%d], (const void *) &p%d, sizeof p%d);" % (j, j, j))
        if f["res"]["k"] != "v":
            call = "%s(%s)" % (f["name"], ", ".join("p%d" % j for j in range(len(f["args"]))))
            s.append("__typeof__(%s) r; memcpy((void *) &r, vk_ret, sizeof r); return r;" % call)
        body.append("%s { %s }" % (head, " ".join(s)))
    c = os.path.join(d, "unit.c")
    with open(c, "w") as fh:
        fh.write(src + "\n" + "\n".join(body) + "\n")
    so = os.path.join(d, "libunit.so")
    p = subprocess.run(["gcc", "-w", "-O1", "-shared", "-fPIC", "-o", so, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise vk.Machinery("gcc does not compile the unit: %s" % p.stdout.decode()[-1500:])
    return so


def leaves(p, exp, off=0):
    """(offset, size, kind) of the scalars of a projected type"""
    k = p["k"]
    if k == "arr":
        z = size(p["of"], exp)
        for i in range(p["n"]):
            yield from leaves(p["of"], exp, off + i * z)
    elif k in ("rec", "anon"):
        r = exp["recs"][p["tag"]] if k == "rec" else exp["anon"][p["id"] - 1]
        for f in r["flat"]:
            if f["w"] >= 0:
                raise Unsupported("bit-field")
            yield from leaves(f["proj"], exp, off + f["off"] // 8)
    else:
        yield off, size(p, exp), k


def size(p, exp):
    k = p["k"]
    if k in ("ptr", "fn"):
        return 8
    if k in ("char", "bool"):
        return 1
    if k == "arr":
        return p["n"] * size(p["of"], exp)
    if k == "rec":
        return exp["recs"][p["tag"]]["size"]
    if k == "anon":
        return exp["anon"][p["id"] - 1]["size"]
    return p["z"]


def value(p, exp, rnd):
    """(bytes of an object of the type, the bytes that count)"""
    n = size(p, exp)
    data, mask = bytearray(n), bytearray(n)
    for off, z, k in leaves(p, exp):
        if k == "bool":
            b = bytes([rnd.randrange(2)])
        elif k == "flt":
            b = struct.pack("<f" if z == 4 else "<d", rnd.choice([0.0, -1.5, 3.25, 1e10, -2.0 ** -20, float(rnd.randrange(-9999, 9999)) / 8]))
        elif k == "ld":
            b = bytes(ctypes.c_longdouble(rnd.choice([0.0, -1.5, 3.25, 2.0 ** 70])))[:10]
            z = 10
        else:
            b = rnd.choice([bytes(z), b"\xff" * z, b"\x80" + b"\0" * (z - 1), b"\0" * (z - 1) + b"\x80",
                            bytes(rnd.randrange(256) for _ in range(z))])
            if k in ("ptr", "fn"):
                b = b[:6] + b"\0\0"
        data[off:off + len(b)] = b
        mask[off:off + z] = b"\xff" * z
    return bytes(data), bytes(mask)


def python(t, data, rnd):
    """the object, or the plain Python value of a simple type"""
    obj = t.from_buffer_copy(data)
    if hasattr(obj, "value") and type(t).__name__ == "PyCSimpleType" and rnd.random() < 0.5 and obj.value is not None:
        return obj.value
    return obj


def masked(data, mask):
    return bytes(a & b for a, b in zip(data, mask))


def check(case, by="ok"):
    """by: which functions to call, by how their records are passed"""
    fns = {f["name"]: f for f in case["exp"]["funcs"] or []}
    if not fns:
        return []
    src = units.source(case)
    d = tempfile.mkdtemp(dir=vk.scratch())
    so = library(case, src, d)
    vk.import_ctypeslib()
    from ctypeslib.library import Library
    ns = vk.load(vk.generate(src, kinds="cdefmstu", searched_dlls=[Library(so, nm="nm")]))
    lib = ctypes.CDLL(so)
    args = (ctypes.c_ubyte * ROOM * ARGS).in_dll(lib, "vk_arg")
    ret = (ctypes.c_ubyte * ROOM).in_dll(lib, "vk_ret")
    out = []
    rnd = random.Random(src)
    for name, f in sorted(fns.items()):
        ways = set(f["abi"]) | {f["rabi"]}
        if "ctypes" in ways or (ways - {"ok"} if by == "ok" else by not in ways):
            continue
        fn = ns.get(name)
        if not isinstance(fn, ctypes._CFuncPtr):
            out.append("%s is %r, not a function" % (name, fn))
            continue
        for _ in range(4):
            out += call(name, f, fn, case["exp"], args, ret, rnd)
            if out:
                return out
    return out


def call(name, f, fn, exp, args, ret, rnd):
    if len(fn.argtypes) != len(f["args"]):
        return ["%s has %d arguments, expected %d" % (name, len(fn.argtypes), len(f["args"]))]
    try:
        vals = [value(p, exp, rnd) for p in f["args"]]
        res = value(f["res"], exp, rnd) if f["res"]["k"] != "void" else None
    except Unsupported:
        return []
    objs = []
    for i, (t, (b, _)) in enumerate(zip(fn.argtypes, vals)):
        if ctypes.sizeof(t) != len(b):
            return ["%s(%d): argument of %d bytes, expected %d" % (name, i, ctypes.sizeof(t), len(b))]
        objs.append(python(t, b, rnd))
    ctypes.memset(args, 0xEE, ctypes.sizeof(args))
    if res is not None:
        ctypes.memmove(ret, res[0], len(res[0]))
    got = fn(*objs)
    out = []
    for i, (b, m) in enumerate(vals):
        seen = bytes(args[i][:len(b)])
        if masked(seen, m) != masked(b, m):
            out.append("%s: argument %d (%s) arrives as %s, passed %s" % (
                name, i, project.show(fn.argtypes[i]), masked(seen, m).hex(), masked(b, m).hex()))
    if res is None:
        if got is not None:
            out.append("%s returns %r, expected nothing" % (name, got))
        return out
    b, m = res
    t = fn.restype
    if t is None or ctypes.sizeof(t) != len(b):
        return out + ["%s: the result has the type %s, expected %d bytes" % (name, project.show(t), len(b))]
    try:
        raw = bytes(got) if isinstance(got, t) else bytes(t(got))
    except (TypeError, ValueError, OverflowError) as x:
        return out + ["%s returns %r: %s" % (name, got, x)]
    if masked(raw, m) != masked(b, m):
        out.append("%s returns %s, expected %s (%s)" % (name, masked(raw, m).hex(), masked(b, m).hex(), project.show(t)))
    return out
