"""C18: every sample lies in the declared range of its crit/direct-hit outcome; outcomes follow the declared rates."""
import math
import random

import numpy as np

from vp import damage as D
from vp import gen as G, model as M
from vp.env import DamageSimulator, Stats
from vp.gen import Opts
from vp.harness import RealCrash, call

RULE = ("distinct simulated fights; every sample of every damage instance is checked against the range of its own crit/direct-hit "
        "outcome, and frequencies, means and correlations against the declared rates at 7 sigma")
ASSUMPTIONS = ["statistical monitors alarm at 7 standard deviations (false alarm odds below 1e-10 per run); numpy's global generator is "
               "seeded by the check, but no particular consumption order of random numbers is assumed"]
Z = 7.0


def fights(ctx):
    """yields (case, stats dict, real stats, instances)"""
    i = 0
    while True:
        i += 1
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/fight/{i}")
        if i % 2:
            case = dict(kind="hits", st=D.rand_player(rng), hits=[], seed=rng.randint(0, 10**6))
            k = rng.choice([1, 2, 5, 12, 30])
            while len(case["hits"]) < k:
                h = D.rand_hit(rng, force=0.1)
                if not D.expected_hit(case["st"], h)["conflict"]:
                    case["hits"].append(h)
        else:
            sc = G.gen_scenario(rng, Opts(synth=0.3, length=(2, 12), autos=0.5, trailing=0.3, snap=0, multi=0.1, downtime=0.1, modp=0.2))
            case = dict(kind="scenario", scenario=sc, seed=rng.randint(0, 10**6))
        yield case


def build(case):
    """(real stats, real instances, expected list or None)"""
    if case["kind"] == "hits":
        S = call(Stats, **case["st"])
        rng = random.Random(case["seed"])
        inst, exp = [], []
        t = rng.choice([0, 0, 120])
        for i, h in enumerate(case["hits"]):
            sk, m, se = D.real_parts(h, f"hit{i}")
            inst.append((t, sk, m, se, i, "Default Target"))
            exp.append(D.expected_hit(case["st"], h))
            t += rng.choice([0, 10, 1234, 2500])
        return S, inst, exp
    sc = case["scenario"]
    tl, mi = G.run_model(sc)
    for x in mi:
        e = D.expected(sc["stats"], x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])
        if e["conflict"]:
            raise M.ForceConflict()
    r = G.run_real(sc)
    return r.stats, r.inst, None


def check(case, n, stat=True):
    S, inst, exp = build(case)
    np.random.seed(case["seed"] % 2**31)
    sim = call(DamageSimulator, S, inst, n, save_damage_matrix=True, save_crit_dh_status=True)
    mat, cs, ds = sim.get_damage_matrix(), sim.get_crit_status(), sim.get_dh_status()
    rows = call(sim.get_damage_ranges)
    k = len(inst)
    info = dict(n=k, samples=k * n)
    if mat.shape != (k, n):
        return f"damage matrix has shape {mat.shape} for {k} instances and {n} samples", info
    if k == 0:
        return None, info
    cs, ds = np.asarray(cs, bool), np.asarray(ds, bool)
    if cs.shape != (k, n) or ds.shape != (k, n):
        return f"crit/dh status have shapes {cs.shape}, {ds.shape}", info
    lo = np.array([[r[j + 1][1] for j in range(4)] for r in rows])
    hi = np.array([[r[j + 1][2] for j in range(4)] for r in rows])
    p = np.array([[r[j + 1][3] for j in range(4)] for r in rows])
    if exp is not None:
        for i, e in enumerate(exp):
            q = D.check_range(e, rows[i][1:])
            if q:
                return q, info
    idx = cs.astype(int) + 2 * ds.astype(int)
    rowi = np.arange(k)[:, None]
    bad = (mat < lo[rowi, idx] - 1e-6) | (mat > hi[rowi, idx] + 1e-6)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        return (f"sample {mat[i, j]} of {rows[i][0]} (crit={cs[i, j]}, dh={ds[i, j]}) outside its declared range "
                f"[{lo[i, idx[i, j]]}, {hi[i, idx[i, j]]}]"), info
    if not np.allclose(mat, np.floor(mat)):
        return "a damage sample is not a whole number", info
    cr, dr = p[:, 1] + p[:, 3], p[:, 2] + p[:, 3]
    if (cs[cr < 1e-12].any()) or (ds[dr < 1e-12].any()) or not cs[cr > 1 - 1e-12].all() or not ds[dr > 1 - 1e-12].all():
        return "an outcome of probability 0 was sampled, or one of probability 1 was not", info
    if not stat:
        return None, info

    def freq(x, q, what, i):
        sd = math.sqrt(max(q * (1 - q), 1e-9) / n)
        if abs(x - q) > Z * sd + 2.0 / n:
            return f"{what} of {rows[i][0]}: sampled frequency {x:.4f}, declared {q:.4f} ({n} samples)"
        return None
    for i in range(k):
        for x, q, w in ((cs[i].mean(), cr[i], "crit"), (ds[i].mean(), dr[i], "direct hit"),
                        ((cs[i] & ds[i]).mean(), cr[i] * dr[i], "crit and direct hit together")):
            r = freq(x, q, w, i)
            if r:
                return r, info
        # the roll is uniform inside the range of each outcome
        for o in range(4):
            m = mat[i, idx[i] == o]
            w = hi[i, o] - lo[i, o]
            # the roll is truncated to whole damage before crits, traits and buffs scale it up
            grain = 0.1 * float(min(exp[i]["base"])) if exp is not None else (hi[i, 0] - lo[i, 0]) / 6
            if len(m) < 200 or min(w, grain) < 20:
                continue
            u = (m - lo[i, o]) / w
            tol = 4.5 / min(w, grain) + Z * math.sqrt(1 / 12 / len(m))
            if abs(u.mean() - 0.5) > tol + 0.01:
                return f"roll of {rows[i][0]}: mean position {u.mean():.3f} in its range, expected 0.5", info
            for qt in (0.1, 0.25, 0.75, 0.9):
                f = (u <= qt).mean()
                if abs(f - qt) > Z * math.sqrt(qt * (1 - qt) / len(m)) + 4 / min(w, grain) + 0.01:
                    return f"roll of {rows[i][0]}: {f:.3f} of samples in the lowest {qt} of its range", info
            info["rolls"] = info.get("rolls", 0) + 1
    # independence across instances and samples

    def corr(a, b):
        a, b = a - a.mean(), b - b.mean()
        d = math.sqrt((a * a).sum() * (b * b).sum())
        return 0 if d < 1e-9 else float((a * b).sum() / d)
    for i in range(min(k - 1, 12)):
        for a, b, w in ((cs[i], cs[i + 1], "crits"), (ds[i], ds[i + 1], "direct hits"), (mat[i], mat[i + 1], "damage"), (cs[i], ds[i + 1], "crit and dh")):
            # guard against rare outcomes: both need variation
            if w != "damage" and min(a.mean(), 1 - a.mean(), b.mean(), 1 - b.mean()) < 0.03:
                continue
            if abs(corr(a.astype(float), b.astype(float))) > (Z + 1) / math.sqrt(n):
                return f"{w} of {rows[i][0]} and {rows[i + 1][0]} are correlated", info
            info["pairs"] = info.get("pairs", 0) + 1
    for i in range(min(k, 12)):
        for a, w in ((cs[i], "crits"), (ds[i], "direct hits"), (mat[i], "damage")):
            if w != "damage" and min(a.mean(), 1 - a.mean()) < 0.03:
                continue
            a = a.astype(float)
            if abs(corr(a[:-1], a[1:])) > (Z + 1) / math.sqrt(n):
                return f"{w} of {rows[i][0]} in consecutive samples are correlated", info
    return None, info


def run(ctx):
    n = 3000
    done = 0
    for case in fights(ctx):
        if done >= ctx.n(220, 3000) or ctx.stop():
            break
        try:
            p, info = check(case, n)
        except G.SKIP:
            continue
        except RealCrash as e:
            p, info = f"crash: {e}", {}
        done += 1
        ctx.count("fights")
        ctx.count("samples checked against their range", info.get("samples", 0))
        ctx.count("outcome rolls tested for uniformity", info.get("rolls", 0))
        ctx.count("instance pairs tested for independence", info.get("pairs", 0))
        ctx.seen(case, nontrivial=info.get("n", 0) > 0)
        if done < 3:
            ctx.sample(str(case)[:400])
        if p:
            ctx.violation(p, case)
    ctx.need("fights", 150)
    ctx.need("samples checked against their range", 2000000)


def replay(ctx, case):
    p, _ = check(case, 3000)
    if p:
        ctx.violation(p)
