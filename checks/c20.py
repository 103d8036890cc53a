"""C20: per-skill damage report."""
import math

import numpy as np

from vp import damage as D
from vp import engine, gen as G, model as M
from vp.env import DamageSimulator
from vp.gen import Opts
from vp.harness import RealCrash, call

RULE = ("distinct timelines; every row of the report (application and snapshot time, skill, potency, class, conditions, effects, "
        "target) is compared with the reference, and its damage with the expected damage of its instance")


def extra(sc, tl, inst, real):
    for x in inst:
        e = D.expected(sc["stats"], x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])
        if e["conflict"]:
            raise M.ForceConflict()
        x["_e"] = e
    try:
        sim = call(DamageSimulator, real.stats, real.inst, 2)
        rows = call(sim.get_per_skill_damage, real.rb)
        rows2 = call(sim.get_per_skill_damage)
        tot, var = float(call(sim.get_expected_damage)), float(call(sim.get_damage_variance))
        ids = list(call(sim.get_event_ids))
        times = list(call(sim.get_damage_time))
        trait = np.atleast_1d(call(sim.get_trait_damage_mult))
    except RealCrash as e:
        return [f"crash: {e}"]
    if len(rows) != len(inst) or len(rows2) != len(inst) or len(ids) != len(inst) or len(times) != len(inst):
        return [f"{len(rows)} report rows for {len(inst)} damage instances"]
    got = [(G.rnd(r.application_time), G.rnd(r.snapshot_time), r.skill_name, float(r.potency), tuple(sorted(r.skill_modifier_condition)),
            G.eff_real(r.status_effects[0]), G.eff_real(r.status_effects[1]), r.target, M.enum_name(r.damage_class)) for r in rows]
    want = [(G.rnd(x["t"]), G.rnd(x["snap"]), x["name"], float(x["spec"].potency), tuple(sorted(x["cond"])),
             G.eff_model(x["buffs"]), G.eff_model(x["debuffs"]), x["target"], M.enum_name(x["spec"].damage_class)) for x in inst]
    a, b = G.diff(got, want)
    if a or b:
        return [f"report rows (application, snapshot, skill, potency, conditions, buffs, debuffs, target, class): only in code "
                f"{sorted(a, key=repr)[:2]}, only in reference {sorted(b, key=repr)[:2]}"]
    ts = [r.application_time for r in rows]
    if ts != sorted(ts) or any(abs(p - q) > 1e-9 for p, q in zip(ts, times)):
        return ["report rows are not in time order, or disagree with get_damage_time"]
    if [r.event_id for r in rows] != ids:
        return ["event ids of the report differ from get_event_ids"]
    ev = {e.event_id: e for e in real.events}
    if len(ev) != len(real.events):
        return ["two events of the timeline share an event id"]
    for r in rows:
        if r.event_id not in ev or ev[r.event_id].skill.name != r.skill_name:
            return [f"row {r.skill_name} carries event id {r.event_id} of another skill"]
    if not math.isclose(math.fsum(r.expected_damage for r in rows), tot, rel_tol=1e-9, abs_tol=1e-6):
        return ["expected damage of the rows does not add up to the total"]
    if not math.isclose(math.fsum(r.standard_deviation ** 2 for r in rows), var, rel_tol=1e-8, abs_tol=1e-3):
        return ["squared standard deviations of the rows do not add up to the total variance"]
    # each row's damage belongs to its own instance
    pool = {}
    for x in inst:
        e = x["_e"]
        ps = [float(p) for p in D.probs(e["crit"], e["dh"])]
        lo = sum(p * (float(min(l)) + float(min(h))) / 2 for p, (l, h) in zip(ps, e["ranges"]))
        hi = sum(p * (float(max(l)) + float(max(h))) / 2 for p, (l, h) in zip(ps, e["ranges"]))
        pool.setdefault((G.rnd(x["t"]), x["name"], x["target"], tuple(sorted(x["cond"]))), []).append((lo - 1e-6, hi + 1e-6, float(e["trait"])))
    for r, tr in zip(rows, trait):
        k = (G.rnd(r.application_time), r.skill_name, r.target, tuple(sorted(r.skill_modifier_condition)))
        if not any(lo <= r.expected_damage <= hi and abs(tr - t) < 1e-9 for lo, hi, t in pool.get(k, [])):
            return [f"expected damage {r.expected_damage} (trait {tr}) of the row {k}: the instance's own formula gives {pool.get(k)}"]
    return []


def observe(ctx, sc, tl, inst, real):
    ctx.count("report rows compared", len(inst))
    ctx.count("rows snapshotted before they apply", sum(x["snap"] < x["t"] for x in inst))
    ctx.count("rows on several targets", sum(any(c.startswith("Target ") for c in x["cond"]) for x in inst))


def run(ctx):
    o = Opts(synth=0.5, length=(3, 22), autos=0.4, trailing=0.3, snap=0.2, downtime=0.15, multi=0.2)
    engine.explore(ctx, o, ctx.n(330, 5000), ("instances",), observe=observe, extra=extra)
    ctx.need("report rows compared", 4000)
    ctx.need("rows snapshotted before they apply", 1500)
    ctx.need("rows on several targets", 100)


def replay(ctx, case):
    engine.replay_scenario(ctx, case, extra)
