"""Records what each statement of a generated module does (see Emission.tla)."""
import ast
import ctypes
import json

import vk


def is_record(o):
    return isinstance(o, type) and issubclass(o, (ctypes.Structure, ctypes.Union))


def needs(cls):
    """the records that a record holds by value"""
    out = set()
    for f in cls.__dict__.get("_fields_", ()):
        t = f[1]
        while isinstance(t, type) and issubclass(t, ctypes.Array):
            t = t._type_
        if is_record(t):
            out.add(t.__name__)
    return sorted(out)


def record(text):
    """(events, exported, namespace) of a module, executed one statement at a time"""
    tree = ast.parse(text)
    ns = {"__name__": "generated"}
    compile(text, "generated", "exec")
    events = []
    seen = {}
    setd = {}
    for node in tree.body:
        exec(compile(ast.Module([node], []), "generated", "exec"), ns)
        new = [k for k, v in ns.items() if k not in ("__builtins__", "__name__", "__all__") and
               (k not in seen or seen[k] is not v)]
        if new:
            events.append({"e": "bind", "names": sorted(new)})
            for k in new:
                seen[k] = ns[k]
        done = [v for v in seen.values() if is_record(v) and "_fields_" in v.__dict__ and v not in setd]
        for v in dict.fromkeys(done):
            setd[v] = ctypes.sizeof(v)
        # classes set by the same statement, innermost first
        todo = list(dict.fromkeys(done))
        while todo:
            names = {v.__name__ for v in todo}
            pick = next((v for v in todo if not (set(needs(v)) - {v.__name__}) & names), todo[0])
            todo.remove(pick)
            events.append({"e": "set", "cls": pick.__name__, "needs": needs(pick)})
    return events, list(ns.get("__all__", ())), ns


def validate(rep, traces):
    """verdicts of TLC: one per trace"""
    out = {}
    for part in [traces[i:i + 4000] for i in range(0, len(traces), 4000)]:
        r = rep.tlc(vk.tlc("EmissionTrace", {}, invariants=["Verdict"], spec="TSpec", heap="6g", workers=4,
                           files={"traces.json": json.dumps(part)}, timeout=800))
        for c in r.cases:
            out[c["id"]] = c
    if len(out) != len(traces):
        raise vk.Machinery("%d verdicts for %d traces" % (len(out), len(traces)))
    return out
