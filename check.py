#!/usr/bin/env python
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib
import json
import multiprocessing
import os
import pickle
import shutil
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.harness import Ctx, parse_args  # noqa: E402


def work(mod, a, k, path):
    ctx = Ctx(a.prop, a.tier, a.seed, mod.RULE, getattr(mod, "ASSUMPTIONS", ()), k, a.workers)
    try:
        mod.run(ctx)
        out = ("ok", ctx.export())
    except BaseException as e:  # noqa
        where = traceback.extract_tb(e.__traceback__)
        if where and "ama_xiv_combat_sim" in where[-1].filename and not isinstance(e, KeyboardInterrupt):
            # the code under test itself raised on an input of the check
            f = where[-1]
            ctx.violation(f"crash: {type(e).__name__}: {e} in {os.path.basename(f.filename)}:{f.name}", dict(kind="crash", trace=traceback.format_exc()))
            out = ("ok", ctx.export())
        elif isinstance(e, (ImportError, MemoryError, OSError, KeyboardInterrupt, SystemExit)):
            out = ("error", traceback.format_exc())
        else:
            # never happens on a tree where the property holds: what the code answered is not even of the expected shape
            f = where[-1] if where else None
            ctx.violation(f"unreadable result: {type(e).__name__}: {e} at {os.path.basename(f.filename)}:{f.lineno}" if f else repr(e),
                          dict(kind="crash", trace=traceback.format_exc()))
            out = ("ok", ctx.export())
    with open(path, "wb") as f:
        pickle.dump(out, f)


def parallel(mod, a, ctx):
    """Every worker runs the check with its own seed; the observations are merged."""
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        mp = multiprocessing.get_context("fork")
        ps = [mp.Process(target=work, args=(mod, a, k, f"{tmp}/{k}")) for k in range(a.workers)]
        for p in ps:
            p.start()
        for p in ps:
            p.join()
        bad = None
        for k in range(a.workers):
            try:
                kind, d = pickle.load(open(f"{tmp}/{k}", "rb"))
            except Exception as e:  # noqa
                kind, d = "error", f"worker {k} left no result: {e}"
            if kind == "ok":
                ctx.merge(d)
            else:
                bad = d
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad and not ctx.violations:
        print(bad)
        print(f"INCONCLUSIVE property={a.prop}: the check itself failed")
        ctx.finish()
        return 3
    return ctx.finish()


def main():
    a = parse_args()
    try:
        mod = importlib.import_module(f"checks.{a.prop.lower()}")
    except ImportError as e:
        traceback.print_exc()
        # the code under test cannot even be imported
        if "ama_xiv_combat_sim" in str(e):
            print(f"INCONCLUSIVE property={a.prop}: {e}")
        return 3
    ctx = Ctx(a.prop, a.tier, a.seed, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
    if a.replay:
        case = json.load(open(a.replay))
        ctx.tier = case["tier"]
        if case["case"] and case["case"].get("kind") == "crash":  # nothing smaller than the run itself
            a.seed, a.tier = case["seed"], case["tier"]
            return parallel(mod, a, Ctx(a.prop, a.tier, a.seed, mod.RULE, getattr(mod, "ASSUMPTIONS", ())))
        mod.replay(ctx, case["case"])
        for what, _ in ctx.violations:
            print("REPRODUCED:", what)
        return 1 if ctx.violations else 0
    return parallel(mod, a, ctx)


if __name__ == "__main__":
    sys.exit(main())
