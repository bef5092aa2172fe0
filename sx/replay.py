# -*- coding: utf-8 -*-
"""replay one counterexample on the unmodified code: exit 1 when the property
is violated, 0 when it is not, 3 for a listed known finding's witness"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main(path):
    with open(path) as fp:
        r = json.load(fp)
    import sx.runner as runner
    import shutil
    import traceback
    d = runner.scratch_env()
    try:
        m = runner.load_concrete(r["property"])
        from sx import core
        for tier in ("quick", "thorough"):
            hs = [h for h in m.harnesses(tier) if h["name"] == r["harness"]]
            if hs:
                break
        if not hs:
            print("no such harness", r["harness"])
            return 2
        ctx = core.ConcreteCtx(r["inputs"])
        core.set_cur(ctx)
        try:
            hs[0]["fn"](ctx)
        except core.Infeasible:
            print("inputs outside the harness' assumptions")
            return 0
        except core.MissingInput as e:
            print("incomplete inputs", e)
            return 2
        except Exception as e:
            traceback.print_exc()
            ctx.violations.append("unexpected %s" % type(e).__name__)
        if ctx.meta:
            print("observed:", {k: v for k, v in ctx.meta.items()})
        if ctx.violations:
            print("reproduced:", ctx.violations[:5])
            return 1
        print("not reproduced (%d assertions held)" % ctx.asserts)
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    rc = main(sys.argv[1])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
