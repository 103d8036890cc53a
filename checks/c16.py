"""C16: damage formulas."""
import random

from vp import damage as D
from vp import decl, engine, formulas as FM, gen as G, model as M
from vp.env import DamageSimulator, Stats
from vp.gen import Opts
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils

RULE = ("distinct (player, damage spec, modifier, buffs, debuffs) hits with non-zero potency whose base damage and four damage "
        "ranges were compared with exact-arithmetic formulas")
ASSUMPTIONS = ["where the exact value is within float error of a flooring boundary, either neighbour is accepted"]


def batch(rng, k):
    st = D.rand_player(rng)
    hits = []
    while len(hits) < k:
        h = D.rand_hit(rng, force=0.08)
        if not D.expected_hit(st, h)["conflict"]:
            hits.append(h)
    return st, hits


def check_batch(st, hits):
    try:
        S = call(Stats, **st)
        inst = []
        bases = []
        for i, h in enumerate(hits):
            sk, m, se = D.real_parts(h, f"hit{i}")
            inst.append((i * 10, sk, m, se, i, "Default Target"))
            bases.append(call(ComputeDamageUtils.get_base_damage, sk, m, S, se))
        rows = call(lambda: DamageSimulator(S, inst, 2).get_damage_ranges())
    except RealCrash as e:
        return f"crash: {e}", None
    for i, h in enumerate(hits):
        e = D.expected_hit(st, h)
        if not FM.close(bases[i], e["base"]):
            return f"base damage: code {bases[i]}, expected one of {sorted(map(float, e['base']))} for {h}", h
        if rows[i][0] != f"hit{i}":
            return "damage ranges are not in the order of the instances", h
        p = D.check_range(e, rows[i][1:])
        if p:
            return f"{p} for {h}", h
    return None, None


def scenario_extra(sc, tl, inst, real):
    """every instance of a real timeline, with the ranges it must have."""
    probs = []
    good = []
    for x in inst:
        if x["spec"] is None or not isinstance(x["buffs"], dict) or not isinstance(x["debuffs"], dict):
            continue
        e = D.expected(sc["stats"], x["spec"], x["mod"].gc, x["mod"].gdh, x["buffs"], x["debuffs"])
        if e["conflict"]:
            raise M.ForceConflict()
        good.append((x, e))
    try:
        rows = call(lambda: DamageSimulator(real.stats, real.inst, 1).get_damage_ranges())
    except RealCrash as e:
        return [f"crash: {e}"]
    if len(rows) != len(inst):
        return [f"{len(rows)} ranges for {len(inst)} damage instances"]
    # rows are in time order; match per (time, name) group by assignment
    groups = {}
    for x, e in good:
        groups.setdefault(G.rnd(x["t"]), []).append((x, e))
    ri = {}
    for r, i in zip(rows, sorted(real.inst, key=lambda y: y[0])):
        ri.setdefault(G.rnd(i[0]), []).append(r)
    for t, xs in groups.items():
        left = list(ri.get(t, []))
        for x, e in xs:
            last = None
            for r in left:
                if r[0] != x["name"]:
                    continue
                last = D.check_range(e, r[1:])
                if last is None:
                    left.remove(r)
                    break
            else:
                return [f"no damage range at {t} for {x['name']} ({sorted(x['cond'])}, potency {x['spec'].potency}): {last}"]
    return probs


def observe(ctx, sc, tl, inst, real):
    for x in inst:
        ctx.count("instances of class " + M.enum_name(x["spec"].damage_class))
        ctx.count("instances of role " + ("tank" if sc["job"] in FM.TANKS else "caster/healer" if sc["job"] in FM.CASTERS | FM.HEALERS else "other"))


def run(ctx):
    decl.declarations(ctx, decl.DamageSpec)
    for i in range(ctx.n(330, 6000)):
        if ctx.stop():
            break
        rng = random.Random(f"C16/{ctx.seed}/{i}")
        st, hits = batch(rng, 14)
        p, h = check_batch(st, hits)
        for x in hits:
            ctx.seen((st, x), nontrivial=x["spec"]["potency"] > 0)
            ctx.count(f"hits {x['spec']['cls']} {st['level']}")
        if p:
            ctx.violation(f"{p} [player {st}]", dict(kind="hits", st=st, hits=[h] if h else hits))
    ctx.sample(dict(player=st, hit=hits[0]))
    o = Opts(synth=0.3, length=(3, 15), autos=0.7, trailing=0.2, snap=0, downtime=0, multi=0.15)
    engine.explore(ctx, o, ctx.n(110, 2500), ("instances",), observe=observe, extra=scenario_extra)
    for k in ("DIRECT", "AUTO", "PHYSICAL_DOT", "MAGICAL_DOT", "PET"):
        ctx.need(f"hits {k} 90", 100)
        ctx.need(f"hits {k} 100", 100)


def replay(ctx, case):
    if case["kind"] == "hits":
        p, _ = check_batch(case["st"], case["hits"])
        if p:
            ctx.violation(p)
    else:
        engine.replay_scenario(ctx, case, scenario_extra)
