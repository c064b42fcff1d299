#!/usr/bin/env python3
"""Run one check (or several) against /repo's current tree:  python3 run.py C04 [C05 ...]"""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


S = "USH_CONFIG_"
VARIANTS = {"no completion": ((S + "ENABLE_FEATURE_AUTOCOMPLETE", 0),),
            "no styles": ((S + "ENABLE_FEATURE_SHELL_STYLES", 0),),
            "16 columns": ((S + "CMD_XXD_COLUMNS", 16),), "1 column": ((S + "CMD_XXD_COLUMNS", 1),),
            "fewer commands": ((S + "ENABLE_COMMAND_XXD", 0), (S + "ENABLE_COMMAND_HELP", 0), (S + "ENABLE_COMMAND_CAT", 0))}
# what a configuration does not contain is not looked for in it; C25 goes through all configurations itself
NOT_IN = {"no completion": ("C08", "C30", "C32"), "fewer commands": ("C27", "C29", "C35")}


def variants(pid):
    """thorough tier: the same rules on other configurations of the library"""
    return [] if pid == "C25" else [(n, v) for n, v in sorted(VARIANTS.items()) if pid not in NOT_IN.get(n, ())]


def select(settings):
    from ushlint import model, steps, entries
    if settings != model.VARIANT:
        model.VARIANT = settings
        entries._c.clear()
        steps._svc.clear()
        for k in [k for k in model._cache if k != "libc"]:
            del model._cache[k]


def main():
    from ushlint import checks
    from ushlint.report import Check
    from ushlint.interp import Broken, Budget
    from ushlint.model import BuildError
    rc = 0
    args = sys.argv[1:]
    tier = "thorough" if "--thorough" in args else "quick"
    ids = [a for a in args if a != "--thorough"] or sorted(checks.CHECKS)
    if ids == ["--selftest"]:
        from ushlint import selftest
        return selftest.main()
    if tier == "thorough":
        from ushlint import interp
        interp.CAP = 840
    for pid in ids:
        fn = checks.CHECKS.get(pid)
        if fn is None:
            print("unknown property %s" % pid)
            return 2
        c = Check(pid, tier=tier)
        for name, settings in [("default", ())] + (variants(pid) if tier == "thorough" else []):
            if c.violations or c.errors:
                break
            select(settings)
            c.begin(name)
            try:
                fn(c)
            except (Broken, Budget, BuildError) as e:
                c.error("%s: %s" % (type(e).__name__, e))
            except Exception as e:
                traceback.print_exc()
                c.error("internal error %s: %s" % (type(e).__name__, e))
        select(())
        r = c.finish()
        rc = r if rc == 0 or r == 1 else rc
    return rc


if __name__ == "__main__":
    sys.exit(main())
