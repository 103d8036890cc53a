"""C27: rotation analysis helpers."""
import math
import random

import numpy as np

from vp import gen as G
from vp.env import DamageSimulator
from vp.harness import RealCrash, call
from checks.c18 import build
from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as RA

RULE = "distinct per-skill reports (from simulated rotations and generated) whose snapshot totals were recomputed, and distinct best-of-k questions answered from the exact distribution"
ASSUMPTIONS = ["best-of-k estimates are compared at 7 standard deviations of their own number of trials"]


class Row:
    def __init__(self, t, d):
        self.snapshot_time, self.expected_damage = t, d


def rows_of(case):
    if case["kind"] == "gen":
        rng = random.Random(case["seed"])
        r = [Row(rng.choice([0, rng.randint(0, 60000), rng.randint(0, 12) * 5000, rng.randint(-2000, 0)]), rng.random() * 20000)
             for _ in range(rng.randint(1, 60))]
        if max(x.snapshot_time for x in r) <= 0:
            r.append(Row(1, 5.0))
        return r
    r = G.run_real(case["scenario"])
    sim = call(DamageSimulator, r.stats, r.inst, 1)
    return call(sim.get_per_skill_damage, rb=r.rb)


def check_totals(case, seen):
    rows = rows_of(case)
    if not rows or max(x.snapshot_time for x in rows) <= 0:
        return "skip"
    rng = random.Random(case["seed"])
    ts = [x.snapshot_time for x in rows]
    qs = rng.sample(ts, min(len(ts), 8)) + [min(ts) - 1, max(ts), max(ts) + 1] + [rng.randint(0, int(max(ts)) + 1) for _ in range(3)]
    for q in qs:
        got = call(RA.get_all_damage_snapshots_before_timestamp, rows, q / 1000)
        want = math.fsum(x.expected_damage for x in rows if x.snapshot_time <= q)
        seen["snapshot totals"] = seen.get("snapshot totals", 0) + 1
        if abs(got - want) > 1e-6 * max(1, want):
            return f"damage snapshotted until {q} ms: {got}, the report sums to {want}"
    for iv in (rng.choice([1, 2, 5, 10]), rng.choice([3, 7, 30, 60, 1000])):
        res = call(RA.get_dps_at_intervals, rows, iv)
        st, tot = list(res["snapshot_time"]), list(res["total_snapshotted_damage"])
        end = max(ts)
        want_t = []
        t = iv
        while t * 1000 < end:
            want_t.append(t)
            t += iv
        want_t.append(end / 1000)
        if len(st) != len(want_t) or any(abs(a - b) > 1e-9 for a, b in zip(st, want_t)):
            return f"intervals of {iv} s until {end} ms: {st[:4]}..{st[-3:]}, expected {want_t[:4]}..{want_t[-3:]}"
        for a, b in zip(want_t, tot):
            want = math.fsum(x.expected_damage for x in rows if x.snapshot_time <= round(a * 1000))
            if abs(b - want) > 0.011:
                return f"total at {a} s: {b}, the report sums to {want}"
        if abs(tot[-1] - math.fsum(x.expected_damage for x in rows)) > 0.011:
            return "the last total is not the whole damage"
        seen["interval totals"] = seen.get("interval totals", 0) + len(tot)
    return None


def check_max(seed, seen):
    rng = random.Random(seed)
    n = rng.choice([1, 2, 5, 40, 300])
    x = [rng.choice([rng.gauss(100, 15), rng.random() * 50]) for _ in range(n)]
    if rng.random() < 0.2:
        x = [7.0] * n
    k = rng.choice([1, 2, 3, 10, 50])
    trials = rng.choice([400, 2000])
    s = sorted(x)
    # exact distribution of the maximum of k draws with replacement
    ps = [((i + 1) / n) ** k - (i / n) ** k for i in range(n)]
    mean = sum(p * v for p, v in zip(ps, s))
    var = max(0.0, sum(p * v * v for p, v in zip(ps, s)) - mean * mean)
    np.random.seed(rng.randint(0, 10**6))
    arg = np.asarray(x) if rng.random() < 0.5 else list(x)
    before = list(arg)
    got = float(call(RA.get_expected_max_in_k_runs, arg, k, num_trials=trials))
    if list(arg) != before:
        return "the samples handed in changed"
    seen["best-of-k estimates"] = seen.get("best-of-k estimates", 0) + 1
    rangew = s[-1] - s[0]
    tol = 7 * math.sqrt(var / trials) + 20 * rangew / trials + 1e-9
    if abs(got - mean) > tol:
        return f"expected best of {k} runs among {n} samples: {got}, exact {mean} (tolerance {tol})"
    if not s[0] - 1e-9 <= got <= s[-1] + 1e-9:
        return f"expected best of {k} runs {got} outside the samples"
    return None


def run(ctx):
    for i in range(ctx.n(260, 4000)):
        if ctx.stop():
            break
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{i}")
        if i % 3:
            case = dict(kind="gen", seed=rng.randint(0, 10**6))
        else:
            case = dict(kind="scenario", seed=rng.randint(0, 10**6),
                        scenario=G.gen_scenario(rng, G.Opts(synth=0.4, length=(1, 16), autos=0.5, trailing=0.3, multi=0.1)))
            if not case["scenario"]["presses"]:
                continue
        seen = {}
        try:
            if case["kind"] == "scenario":
                build(dict(kind="scenario", scenario=case["scenario"]))
            p = check_totals(case, seen)
        except G.SKIP:
            continue
        except RealCrash as e:
            p = f"crash: {e}"
        if p == "skip":
            continue
        ctx.count("reports")
        for k, v in seen.items():
            ctx.count(k, v)
        ctx.seen(case)
        if p:
            ctx.violation(p, case)
    for i in range(ctx.n(40, 400)):
        if ctx.stop():
            break
        seen = {}
        s = f"{ctx.seed}/{i}"
        try:
            p = check_max(s, seen)
        except RealCrash as e:
            p = f"crash: {e}"
        for k, v in seen.items():
            ctx.count(k, v)
        ctx.seen(("max", s))
        if p:
            ctx.violation(p, dict(kind="max", seed=s))
    ctx.sample(dict(observed=dict(ctx.counts)))
    ctx.need("snapshot totals", 2000)
    ctx.need("interval totals", 2000)
    ctx.need("best-of-k estimates", 150)


def replay(ctx, case):
    p = check_max(case["seed"], {}) if case["kind"] == "max" else check_totals(case, {})
    if p and p != "skip":
        ctx.violation(p)
