#!/usr/bin/env python3
"""check.py <property id>|all [--tier quick|thorough]
Decides the property by static analysis of /repo's current working tree."""
import importlib, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from hx import extract, mir, report


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if args and args[0] == "--setup" or "--setup" in sys.argv:
        extract.extract()
        return 0
    import rules.registry as reg

    ids = sorted(reg.RULES) if args[0] == "all" else args
    t0 = time.time()
    try:
        path = extract.extract()
    except extract.ExtractError as e:
        print("EXTRACTION FAILED: %s" % e)
        return 2
    F = mir.Facts(path)
    info = {"functions_in_crate": len(F.fns), "audio_thread_instances": len(F.insts), "tree": os.path.basename(path)}
    rc = 0
    for i in ids:
        t1 = time.time() if len(ids) > 1 else t0
        mod, fn = reg.RULES[i]
        m = importlib.import_module("rules." + mod)
        try:
            rep = getattr(m, fn)(F, tier)
        except Exception as e:
            # the analysis gave up (budget, or a shape it cannot model): what
            # was decided up to here counts, the rest is reported as undecided
            traceback.print_exc()
            rep = report.Report.current
            if rep is None or rep.prop != i:
                rep = report.Report(i, "other")
                rep.rule("the analysis could not be started on this tree")
            rep.violations = [v for v in rep.violations if not v[0].startswith("floor:")]
            rep.note("UNDECIDED: the analysis stopped: %r" % e)
            rep.count("parts undecided")
            print("UNDECIDED property=%s the analysis stopped early: %r" % (i, e))
        rc |= report.finish(rep, tier, seed, t1, info)
    return rc


if __name__ == "__main__":
    sys.exit(main())
