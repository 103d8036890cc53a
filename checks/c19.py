"""C19: expectation, variance, dps and totals agree with the damage ranges and samples."""
import math
import random

import numpy as np

from checks.c18 import build, fights
from vp import damage as D
from vp import gen as G
from vp.env import DamageSimulator
from vp.harness import RealCrash, call

RULE = ("distinct simulated fights whose per-instance mean and variance, totals and dps were recomputed from the declared ranges and "
        "the recorded samples")
ASSUMPTIONS = ["the sampled mean and variance are compared with the expectation at 7 standard deviations plus the flooring error"]


def close(a, b, rel=1e-9):
    return a == b or abs(a - b) <= rel * max(1.0, abs(a), abs(b))


def check(case, n):
    S, inst, exp = build(case)
    np.random.seed(case["seed"] % 2**31)
    sim = call(DamageSimulator, S, inst, n, save_damage_matrix=True)
    rows = call(sim.get_damage_ranges)
    k = len(inst)
    info = dict(k=k)
    mean = list(call(sim.get_expected_damage_per_damage_instance))
    var = list(call(sim.get_variance_per_damage_instance))
    if len(mean) != k or len(var) != k or len(rows) != k:
        return f"{len(mean)} means, {len(var)} variances, {len(rows)} ranges for {k} instances", info
    for i, r in enumerate(rows):
        o = r[1:]
        if not close(sum(x[3] for x in o), 1):
            return f"outcome probabilities of {r[0]} sum to {sum(x[3] for x in o)}", info
        if exp is not None:
            # not the code's own ranges: the independent ones
            E = exp[i]
            lohi = []
            for j in range(4):
                lo = min(E["ranges"][j][0], key=lambda v: abs(float(v) - o[j][1]))
                hi = min(E["ranges"][j][1], key=lambda v: abs(float(v) - o[j][2]))
                lohi.append((float(lo), float(hi)))
            cr, dr = float(E["crit"]), float(E["dh"])
            ps = [(1 - cr) * (1 - dr), cr * (1 - dr), (1 - cr) * dr, cr * dr]
        else:
            lohi = [(x[1], x[2]) for x in o]
            ps = [x[3] for x in o]
        m = sum(p * (a + b) / 2 for p, (a, b) in zip(ps, lohi))
        m2 = sum(p * ((b - a) ** 2 / 12 + ((a + b) / 2) ** 2) for p, (a, b) in zip(ps, lohi))
        v = m2 - m * m
        if not close(m, mean[i], 1e-8):
            return f"expected damage of {r[0]}: code {mean[i]}, the declared ranges give {m}", info
        if abs(v - var[i]) > 1e-7 * max(1.0, m2):
            return f"variance of {r[0]}: code {var[i]}, the declared ranges give {v}", info
    tm, tv = call(sim.get_expected_damage), call(sim.get_damage_variance)
    if not close(float(tm), math.fsum(mean), 1e-9) or not close(float(tv), math.fsum(var), 1e-9):
        return f"totals: expected {tm} (sum of parts {math.fsum(mean)}), variance {tv} (sum {math.fsum(var)})", info
    raw, dps, mat = np.asarray(sim.get_raw_damage(), float), np.asarray(sim.get_dps(), float), sim.get_damage_matrix()
    if raw.shape != (n,) or dps.shape != (n,):
        return f"raw damage has shape {raw.shape}, dps {dps.shape} for {n} samples", info
    col = mat.sum(axis=0) if k else np.zeros(n)
    if not np.allclose(raw, col, rtol=1e-12, atol=1e-6):
        return "raw damage of a sample is not the sum of its instances", info
    ts = sorted(x[0] for x in inst)
    dur = (ts[-1] - ts[0]) / 1000 if ts else 0
    if dur > 0:
        if not np.allclose(dps * dur, raw, rtol=1e-9):
            return f"dps {dps[0]} x fight time {dur} s is not the raw damage {raw[0]}", info
    elif not np.all(np.isinf(dps)):
        return f"dps of a fight without duration is {dps[0]}, not inf", info
    info["fights with duration"] = int(dur > 0)
    # samples against expectation
    if k:
        fl = 4.0 * k  # flooring inside an outcome moves the mean by a few points
        if abs(raw.mean() - float(tm)) > 7 * math.sqrt(max(float(tv), 1) / n) + fl:
            return f"mean of the sampled damage {raw.mean():.1f}, expected damage {float(tm):.1f}", info
        sv = raw.var()
        kurt = max(3.0, ((raw - raw.mean()) ** 4).mean() / max(sv, 1e-9) ** 2)
        tol = 7 * math.sqrt((kurt - 1) / n) * sv + 2 * fl * math.sqrt(max(sv, 1)) + fl * fl
        if abs(sv - float(tv)) > tol:
            return f"variance of the sampled damage {sv:.0f}, declared {float(tv):.0f}", info
    return None, info


def run(ctx):
    n = 2000
    done = 0
    for case in fights(ctx):
        if done >= ctx.n(320, 5000) or ctx.stop():
            break
        try:
            p, info = check(case, n)
        except G.SKIP:
            continue
        except RealCrash as e:
            p, info = f"crash: {e}", {}
        done += 1
        ctx.count("fights")
        ctx.count("instances", info.get("k", 0))
        ctx.count("fights with duration", info.get("fights with duration", 0))
        ctx.seen(case, nontrivial=info.get("k", 0) > 0)
        if done < 3:
            ctx.sample(str(case)[:400])
        if p:
            ctx.violation(p, case)
    # boundaries: a fight without damage instances, of a single one, and of thousands
    for k in (0, 1, 4999, 5000, 5001, 6500):
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{k}")
        if ctx.stop() or (k > 1 and not ctx.mine(k) and k != 5001 + ctx.worker):
            continue
        st = D.rand_player(rng)
        pool = []
        while len(pool) < 12:
            h = D.rand_hit(rng, force=0.1)
            if not D.expected_hit(st, h)["conflict"]:
                pool.append(h)
        case = dict(kind="hits", st=st, hits=[rng.choice(pool) for _ in range(k)], seed=rng.randint(0, 10**6), n=200)
        try:
            p, info = check(case, 200)
        except RealCrash as e:
            p, info = f"crash: {e}", {}
        ctx.count("fights of %s hits" % ("no" if k == 0 else "1" if k == 1 else "about 5000 or more"))
        ctx.seen((k, ctx.seed))
        if p:
            ctx.violation(f"{k} hits: {p}", case)
    ctx.need("fights of no hits", 1)
    ctx.need("fights of about 5000 or more hits", 1)
    ctx.need("fights with duration", 100)
    ctx.need("instances", 2000)


def replay(ctx, case):
    p, _ = check(case, case.get('n', 2000))
    if p:
        ctx.violation(p)
