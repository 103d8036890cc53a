"""C17: crit and direct hit rates, forced and forbidden."""
import random

import numpy as np

from vp import damage as D
from vp import engine, formulas as FM, gen as G, model as M
from vp.env import DamageSimulator, Stats
from vp.gen import Opts
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils

RULE = "distinct (player, forced/forbidden sources, buffs, debuffs) combinations whose crit and direct hit rates were compared"


def one(st, h):
    """single hit; returns problem or None."""
    e = D.expected_hit(st, h)
    try:
        S = call(Stats, **st)
        sk, m, se = D.real_parts(h)
    except RealCrash as x:
        return f"crash: {x}"
    got = None
    try:
        got = call(ComputeDamageUtils.compute_crit_rates_and_bonuses, S, sk, m, se)
    except RealCrash as x:
        if not e["conflict"]:
            return f"crash: {x}"
        if not isinstance(x.exc, RuntimeError):
            return f"contradictory forces raise {type(x.exc).__name__}, not RuntimeError"
    if e["conflict"]:
        if got is not None:
            return f"contradictory forces are accepted silently: rates {got}"
        try:
            call(DamageSimulator, S, [(0, sk, m, se, 0, "T")], 1)
            return "the simulator accepts contradictory forces"
        except RealCrash:
            return None
    if abs(got[0] - float(e["dh"])) > 1e-9 or abs(got[1] - float(e["crit"])) > 1e-9 or abs(got[2] - float(e["bonus"])) > 1e-9:
        return f"(dh rate, crit rate, crit bonus): code {tuple(map(float, got))}, expected {(float(e['dh']), float(e['crit']), float(e['bonus']))}"
    try:
        sim = call(DamageSimulator, S, [(0, sk, m, se, 0, "T"), (5, sk, m, se, 1, "T")], 40, save_damage_matrix=True, save_crit_dh_status=True)
        c, d = sim.get_crit_and_dh_rates()
        row = sim.get_damage_ranges()[0][1:]
        cs, ds = sim.get_crit_status(), sim.get_dh_status()
    except RealCrash as x:
        return f"crash: {x}"
    if abs(float(c[0]) - float(e["crit"])) > 1e-9 or abs(float(d[1]) - float(e["dh"])) > 1e-9:
        return f"get_crit_and_dh_rates: code {float(c[0]), float(d[0])}, expected {float(e['crit']), float(e['dh'])}"
    ps = D.probs(e["crit"], e["dh"])
    for k in range(4):
        if abs(row[k][3] - float(ps[k])) > 1e-9:
            return f"probability of '{row[k][0]}': code {row[k][3]}, expected {float(ps[k])}"
    for rate, stt, nm in ((e["crit"], cs, "crit"), (e["dh"], ds, "direct hit")):
        if rate == 1 and not np.all(stt):
            return f"a forced {nm} did not always happen"
        if rate == 0 and np.any(stt):
            return f"a forbidden {nm} happened"
    return None


def scenario_extra(sc, tl, inst, real):
    want = []
    conflict = False
    for x in inst:
        cr, dr, cf = FM.rates(D.stats_of(sc["stats"]), x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])
        conflict = conflict or cf
        want.append((G.rnd(x["t"]), x["name"], round(float(cr), 7), round(float(dr), 7)))
    try:
        sim = call(DamageSimulator, real.stats, real.inst, 1)
    except RealCrash as e:
        if conflict and isinstance(e.exc, RuntimeError):
            return []
        return [f"crash: {e}"]
    if conflict:
        return ["contradictory forces are accepted silently"]
    c, d = sim.get_crit_and_dh_rates()
    c, d = np.atleast_1d(c), np.atleast_1d(d)
    got = [(G.rnd(i[0]), i[1].name, round(float(a), 7), round(float(b), 7))
           for i, a, b in zip(sorted(real.inst, key=lambda y: y[0]), c, d)]
    a, b = G.diff(got, want)
    if a or b:
        return [f"(time, skill, crit rate, dh rate): only in code {sorted(a)[:3]}, only in reference {sorted(b)[:3]}"]
    return []


def observe(ctx, sc, tl, inst, real):
    for x in inst:
        cr, dr, cf = FM.rates(D.stats_of(sc["stats"]), x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])
        ctx.count("conflicting instances" if cf else "forced crit instances" if cr == 1 else "forced dh instances" if dr == 1
                  else "forbidden instances" if cr == 0 or dr == 0 else "plain instances")


def run(ctx):
    for i in range(ctx.n(3000, 60000)):
        if ctx.stop():
            break
        rng = random.Random(f"C17/{ctx.seed}/{i}")
        st, h = D.rand_player(rng), D.rand_hit(rng, force=0.4 if i % 2 else 0.1)
        p = one(st, h)
        e = D.expected_hit(st, h)
        ctx.count("conflicts" if e["conflict"] else "forced" if 1 in (e["crit"], e["dh"]) else "forbidden" if 0 in (e["crit"], e["dh"]) else "plain")
        ctx.seen((st["crit_stat"], st["dh_stat"], st["level"], h))
        if i < 2:
            ctx.sample(dict(player=st, hit=h, crit=float(e["crit"]), dh=float(e["dh"])))
        if p:
            ctx.violation(f"{p} for {h} [player {st}]", dict(kind="hit", st=st, h=h))
    o = Opts(synth=0.5, length=(4, 18), autos=0.3, trailing=0.2, snap=0, downtime=0, multi=0.1, modp=0.3, must=("buffs", "force"), party=0.2)
    engine.explore(ctx, o, ctx.n(250, 4000), ("instances",), observe=observe, extra=scenario_extra)
    for k in ("conflicts", "forced", "forbidden", "plain"):
        ctx.need(k, 200)


def replay(ctx, case):
    if case["kind"] == "hit":
        p = one(case["st"], case["h"])
        if p:
            ctx.violation(p)
    else:
        engine.replay_scenario(ctx, case, scenario_extra)
