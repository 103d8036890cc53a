"""What is over is over: a rotation an hour after another one comes out as if there had been no other one.

Real code against real code, so it does not depend on the reference model."""
import copy
import math
import random

from . import gen as G
from .harness import RealCrash

GAP = 3600000


def lasting(skill, settings):
    """something of this skill may still be there an hour later"""
    todo = [skill]
    while todo:
        s = todo.pop()
        for spec in (s.buff_spec, s.debuff_spec):
            for v in G.values(spec):
                if v is not None and (v.duration == math.inf or v.max_duration == math.inf):
                    return True
        for v in G.values(s.job_resource_spec):
            for r in v:
                if r.name in settings and r.change > 0 and r.duration == math.inf and settings[r.name].expiry_from_last_gain == math.inf:
                    return True
        for v in G.values(s.channeling_spec):
            if v is not None and v.duration == math.inf:
                return True
        todo += [fu.skill for fu in G.all_follow_ups(s)]
    return False


def one(seed, features, must):
    rng = random.Random(seed)
    o = G.Opts(mode="timed", length=(4, 20), autos=0, trailing=0, snap=0, fight_start=0, downtime=0, multi=0.1, party=0, bonus=0, tie=0,
               synth=0.7, features=features, must=must, prefer=rng.choice(["buffy", "gcds", None]))
    sc = G.gen_scenario(rng, o)
    sc["rb"]["fight_start"] = 0
    lib = G.get_lib(sc["lib"])
    settings = lib.get_all_resource_settings(sc["job"])
    ps = sorted((p for p in sc["presses"] if p["t"] is not None and not p["skill"].startswith("Wait ")), key=lambda p: p["t"])
    pre = [p for p in ps[:len(ps) // 2] if not lasting(lib.get_skill(p["skill"], sc["job"]), settings)]
    post = ps[len(ps) // 2:]
    if not pre or not post:
        return "skip", 0
    post = [dict(p, t=p["t"] + GAP) for p in post]
    with_, without = copy.deepcopy(sc), copy.deepcopy(sc)
    with_["presses"], without["presses"] = pre + post, post
    G.run_model(with_)  # skips what is left open
    G.run_model(without)
    a, b = G.run_real(with_), G.run_real(without)
    start = post[0]["t"] - GAP / 2
    for what, x, y in (("presses", [G.press_key_real(p) for p in a.presses if p[0] > start], [G.press_key_real(p) for p in b.presses]),
                       ("hits", [G.inst_key_real(i) for i in a.inst if i[0] > start], [G.inst_key_real(i) for i in b.inst])):
        m, n = G.diff(x, y)
        if m or n:
            return (f"{what} an hour after other skills: {sorted(m)[:2]}, without them {sorted(n)[:2]} "
                    f"[lib={sc['lib']} job={sc['job']} before={pre[:6]} after={post[:6]}]"), 0
    return None, len(b.inst)


def explore(ctx, n, features, must):
    for i in range(n):
        if ctx.stop():
            return
        case = dict(kind="past", seed=f"{ctx.prop}/{ctx.seed}/past/{i}", features=list(features), must=list(must))
        p = check(ctx, case)
        if p:
            ctx.violation(p, case)
    ctx.need("hits compared with and without a past", 500)


def check(ctx, case):
    try:
        p, k = one(case["seed"], tuple(case["features"]), tuple(case["must"]))
    except G.SKIP:
        return None
    except RealCrash as e:
        return f"crash: {e}"
    if p == "skip":
        return None
    ctx.count("hits compared with and without a past", k)
    ctx.seen(("past", case["seed"]))
    return p
