"""Entry point of the checks: main.py ID"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk  # noqa: E402


def main(prop):
    vk.scratch()
    # never the bytecode that an earlier state of the working tree left behind
    sys.pycache_prefix = os.path.join(vk.scratch(), "pycache")
    mod = importlib.import_module("p_" + prop.lower())
    rep = vk.Report(prop, "model_checking")
    try:
        mod.run(rep)
        known(rep, mod)
        code = rep.finish()
    except vk.Machinery as x:
        if rep.violations:
            return rep.finish()
        print("ERROR property=%s: %s" % (prop, x))
        return 2
    except Exception:
        if rep.violations:
            return rep.finish()
        traceback.print_exc()
        return 2
    return code


def known(rep, mod):
    """The findings of known_findings.txt: each names an input that fails."""
    for key, what in vk.known_findings(rep.prop):
        fn = getattr(mod, "KNOWN", {}).get(key)
        if fn is None:
            raise vk.Machinery("known finding %s is not in the harness" % key)
        [res] = vk.run_cases(fn, [None], procs=1)
        if res:
            rep.known.append("%s: %s" % (key, what))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
