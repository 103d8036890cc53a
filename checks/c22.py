"""C22: kill time estimates."""
import copy
import math
import random

import numpy as np

from vp import damage as D
from vp import gen as G
from vp import model as M
from vp.env import DamageBuilder, DamageSimulator, SkillModifier, Stats
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator

RULE = ("distinct raids (1 to 4 rotations, limit breaks included); each returned damage trajectory is checked hit by hit against the "
        "damage ranges of the party's instances, and every kill time is recomputed from its trajectory")
ASSUMPTIONS = ["limit break damage is given in whole numbers"]
Z = 7.0


def gen_case(rng):
    scs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        sc = G.gen_scenario(rng, G.Opts(synth=0.15, length=(2, 10), autos=0.4, trailing=0.4, snap=0.1, multi=0.1, downtime=0.1,
                                        fight_start=0.6, party=0.05, modp=0.05, condp=0.1))
        if sc["lib"]["kind"] == "real" and rng.random() < 0.6:
            for _ in range(rng.randint(1, 2)):
                timed = [p["t"] for p in sc["presses"] if p["t"] is not None]
                n = rng.choice([1000, 54321, 250000, 7])
                kind = rng.choice(["Mean", "Exact"])
                sc["presses"].append(dict(skill=rng.choice(["LB 1", "LB 2", "LB 3"]), job=None,
                                          mod=dict(cond=f"{kind} Damage: {n}"), targets=rng.choice([None, None, "Add 1, Add 2"]),
                                          t=(max(timed, default=0) + rng.choice([700, 2500, 9000])) if (timed or rng.random() < 0.5) else None))
        scs.append(sc)
    if rng.random() < 0.35:  # several players with one and the same rotation
        scs = scs + [rng.choice(scs)] * rng.choice([1, 1, 2, 3])
        same = rng.random() < 0.5
        return dict(scs=scs, same=same, seed=rng.randint(0, 10**6), hp=rng.choice([0.5, 0.95, 1.0, 1.05]))
    return dict(scs=scs, seed=rng.randint(0, 10**6), hp=rng.choice([0.2, 0.5, 0.8, 0.95, 1.0, 1.0, 1.05, 2.0, "exact", "zero"]))


def lb_of(cond):
    for c in cond:
        if c.startswith("Mean Damage: "):
            n = int(c[13:])
            return math.floor(0.95 * n) - 1e-6, math.floor(1.05 * n) + 1e-6, n
        if c.startswith("Exact Damage: "):
            n = int(c[14:])
            return n, n, n
    raise M.NoSpec()


def check(case, n, seen):
    rbs, rows, total, var = [], [], 0.0, 0.0
    built = []
    for sc in case["scs"]:
        tl, mi = G.run_model(sc)
        for x in mi:
            e = D.expected(sc["stats"], x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])
            if e["conflict"]:
                raise M.ForceConflict()
        r = G.run_real(sc)
        before = [b for s, b in built if s == sc]
        if before:
            seen["rotations present several times"] = seen.get("rotations present several times", 0) + 1
        rbs.append(before[0] if before and case.get("same") else r.rb)
        built.append((sc, r.rb))
        sim = call(DamageSimulator, r.stats, r.inst, 1)
        rg = call(sim.get_damage_ranges)
        mean, v = list(sim.get_expected_damage_per_damage_instance()), list(sim.get_variance_per_damage_instance())
        for i, x in enumerate(sorted(r.inst, key=lambda x: x[0])):
            if "LB" in x[1].name:
                lo, hi, m = lb_of(x[2].with_condition)
                vv = (hi - lo) ** 2 / 12
                seen["limit breaks"] = seen.get("limit breaks", 0) + 1
            else:
                lo, hi, m, vv = min(o[1] for o in rg[i][1:]), max(o[2] for o in rg[i][1:]), mean[i], v[i]
            rows.append((x[0], lo, hi))
            total += m
            var += vv
    if not rows:
        raise M.NoSpec()
    hp = case["hp"]
    exact = None
    if hp == "exact":  # exactly the damage of one trajectory at some hit
        np.random.seed(case["seed"])
        _, cs, _ = call(kte(1, rbs).estimate_kill_time, num_samples=n, verbose=False)
        rng = random.Random(case["seed"])
        hp = float(cs[rng.randrange(cs.shape[0]), rng.randrange(n)])
        exact = hp
    elif hp == "zero":
        hp = 1
    else:
        hp = hp * total
    np.random.seed(case["seed"])
    res = call(kte(hp, rbs).estimate_kill_time, num_samples=n, verbose=False)
    kt, cs, ts = res
    kt, cs, ts = list(kt), np.asarray(cs, float), [float(t) for t in ts]
    if len(kt) != n or cs.shape != (len(rows), n) or len(ts) != len(rows):
        return f"{len(kt)} kill times, trajectories of shape {cs.shape} and {len(ts)} times for {len(rows)} instances and {n} samples"
    if ts != sorted(float(r[0]) for r in rows):
        return f"the times of the trajectories are not those of the damage instances in order: {ts[:5]}"
    # trajectories: per distinct time, the step is within the ranges
    by = {}
    for t, lo, hi in rows:
        a = by.setdefault(float(t), [0.0, 0.0])
        a[0] += lo
        a[1] += hi
    prev = np.zeros(n)
    for i, t in enumerate(ts):
        if i + 1 < len(ts) and ts[i + 1] == t:
            continue
        step = cs[i] - prev
        prev = cs[i]
        lo, hi = by[t]
        if (step < lo - 1e-3).any() or (step > hi + 1e-3).any():
            return f"damage between {step.min()} and {step.max()} at {t} ms, the instances at that time allow [{lo}, {hi}]"
        seen["steps"] = seen.get("steps", 0) + n
    if abs(cs[-1].mean() - total) > Z * math.sqrt(var / n) + 6 * len(rows):
        return f"mean total damage {cs[-1].mean():.0f}, expected {total:.0f}"
    if len(rows) >= 40 and var > 100 * len(rows):  # independent hits: the variances add up
        x = cs[-1].var()
        seen["raids whose variance was compared"] = seen.get("raids whose variance was compared", 0) + 1
        if not 0.4 * var < x < 2 * var:
            return f"the total damage has variance {x:.4g}, that of {len(rows)} independent hits is {var:.4g}"
    want = []
    for j in range(n):
        k = next((ts[i] / 1000 for i in range(len(ts)) if cs[i, j] >= hp), None)
        want.append(k)
    a = sorted(float(x) for x in kt if x is not None)
    b = sorted(x for x in want if x is not None)
    seen["kills"] = seen.get("kills", 0) + len(b)
    seen["failures"] = seen.get("failures", 0) + n - len(b)
    if len(a) != len(b):
        return f"{len(a)} of {n} trajectories kill, {len(b)} of the returned trajectories reach {hp}"
    if any(abs(x - y) > 1e-9 for x, y in zip(a, b)):
        return f"kill times {a[:3]}..{a[-3:]}, the trajectories give {b[:3]}..{b[-3:]}"
    if exact is not None:
        seen["boss hp equal to a trajectory's damage"] = seen.get("boss hp equal to a trajectory's damage", 0) + 1
    return None


def kte(hp, rbs):
    k = KillTimeEstimator(boss_hp=hp)
    for rb in rbs:
        k.add_rotation(rb)
    return k


def run(ctx):
    done = i = 0
    n = ctx.n(70, 1000)
    while done < n and i < 4 * n and not ctx.stop():
        i += 1
        case = gen_case(random.Random(f"{ctx.prop}/{ctx.seed}/{i}"))
        seen = {}
        try:
            p = check(case, 300, seen)
        except G.SKIP:
            continue
        except RealCrash as e:
            p = f"crash: {e}"
        done += 1
        ctx.count("raids")
        ctx.count("raids of several rotations", int(len(case["scs"]) > 1))
        for k, v in seen.items():
            ctx.count(k, v)
        ctx.seen(case)
        if done < 3:
            ctx.sample(dict(hp=case["hp"], jobs=[s["job"] for s in case["scs"]], observed=seen))
        if p:
            ctx.violation(p, case)
    ctx.need("raids", 60)
    ctx.need("raids of several rotations", 20)
    ctx.need("limit breaks", 40)
    ctx.need("rotations present several times", 15)
    ctx.need("raids whose variance was compared", 20)
    ctx.need("kills", 5000)
    ctx.need("failures", 2000)
    ctx.need("boss hp equal to a trajectory's damage", 5)


def replay(ctx, case):
    p = check(case, 300, {})
    if p:
        ctx.violation(p)
