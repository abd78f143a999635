"""C source for the cases of Enums.tla."""
import random

import render

HOWS = ["named", "unnamed", "typedef", "typedef_named", "member", "member_named", "var", "array_member", "later_typedef"]


def num(bytes_):
    return int.from_bytes(bytes(bytes_), "little", signed=True)


def literal(form, v, rnd):
    if form in ("dec", "paren"):
        if v == -(1 << 63):
            s = "(-9223372036854775807LL - 1)"
        else:
            s = str(v) + (rnd.choice(["", "", "L", "LL"]) if abs(v) < 2 ** 31 else "")
        return "(%s)" % s if form == "paren" else s
    suffix = "ULL" if v >= 1 << 63 else rnd.choice(["", "", "u", "UL", "ll"])
    return {"hex": "0x%x", "oct": "0%o"}.get(form, "0b{:b}").format(v) % (() if form == "bin" else (v,)) + suffix \
        if form != "oct" or v else "0"


def item(it, rnd):
    f, v = it["form"], num(it["val"])
    if f == "implicit":
        return it["name"]
    if f == "char":
        s = "'%c'" % v
    elif f == "shift":
        s = "1%s << %d" % ("ULL" if it["k"] > 30 else "", it["k"])
    elif f == "ref":
        s = it["from"] if not it["k"] else "%s %s %d" % (it["from"], "+" if it["k"] > 0 else "-", abs(it["k"]))
    elif f == "sizeof":
        s = "sizeof(int) * %d" % it["k"]
    elif f == "or":
        s = "(%s | %d)" % (it["from"], it["k"])
    else:
        s = literal(f, v, rnd)
    return "%s = %s" % (it["name"], s)


def short(case):
    """-fshort-enums instead of the attribute on each enumeration"""
    return all(e["packed"] for e in case["enums"]) and len(repr(case["enums"])) % 2 == 0


def opts(case):
    return ["-fshort-enums"] if short(case) else []


def source(case):
    rnd = random.Random(repr(case["enums"])[:3000])
    out = []
    for e in case["enums"]:
        attr = "__attribute__((packed)) " if e["packed"] and not short(case) else ""
        body = "{ %s%s }" % (", ".join(item(i, rnd) for i in e["items"]), rnd.choice(["", "", ","]))
        n = e["name"]
        if e["under"] != "none":
            body = ": %s %s" % (render.BASE[e["under"]], body)
        anon, named = "enum %s%s" % (attr, body), "enum %s%s %s" % (attr, n, body)
        if e["ahead"] != "no":
            # before its definition: alone, or used too
            out.append("enum %s%s;" % (n, "" if e["under"] == "none" else " : " + render.BASE[e["under"]]))
        if e["ahead"] == "used":
            out.append("struct U_%s { char c; enum %s %sf; };" % (n, n, "*" if e["under"] == "none" else rnd.choice(["*", ""])))
        out.append({"named": named + ";", "unnamed": anon + ";",
                    "typedef": "typedef %s T_%s;" % (anon, n), "typedef_named": "typedef %s T_%s;" % (named, n),
                    "member": "struct S_%s { int a; %s f; char b; };" % (n, anon),
                    "member_named": "struct S_%s { char a; %s f; char b; };" % (n, named),
                    "array_member": "struct S_%s { char a; %s f[3]; };" % (n, named),
                    "var": "%s v_%s = %s;" % (named, n, e["items"][-1]["name"]),
                    "later_typedef": "%s;\ntypedef enum %s T_%s;\nT_%s fun_%s(enum %s p);" % (named, n, n, n, n, n)}[e["how"]])
    return "\n".join(out) + "\n"
