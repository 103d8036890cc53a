"""C09: downtime windows."""
import random

from vp import engine
from vp import gen as G
from vp.gen import Opts
from vp.harness import RealCrash
from vp.model import enum_name, resolve

RULE = "distinct timelines; the surviving events and damage instances with downtime windows are compared with the reference filter"
ASSUMPTIONS = ["windows do not overlap (documented assumption of the code)",
               "synthetic libraries: whether and with which damage class a skill deals damage is known when the rotation is laid out"]


def inside(tl, real):
    """Direct reading of the rule on what the code produced: no damage lands inside a window."""
    out, late = [], []
    at_layout = {e.event_id: e for e in real.events}
    for x in real.inst:
        t, skill, mod, eid, target = x[0], x[1], x[2], x[4], x[5]
        cls = enum_name(skill.get_damage_spec(mod).damage_class)
        for lo, hi, dc in tl.windows_for(target):
            if dc is not None and enum_name(dc) != cls:
                continue
            if lo <= t < hi:
                msg = f"{skill.name} hits {target} at {t} inside downtime [{lo}, {hi})"
                e = at_layout.get(eid)
                was = resolve(e.skill.damage_spec, frozenset(e.skill_modifier.with_condition)) if e is not None else None
                # damage, or a class of damage, that only exists thanks to a condition found when damage is built
                if e is not None and (was is None or enum_name(was.damage_class) != cls):
                    late.append((skill.name, msg))
                else:
                    out.append(msg)
    return out[:2], late


def run(ctx):
    def late(sc, found):
        if sc["lib"]["kind"] != "real":
            return
        for name, msg in found:
            ctx.violation(msg, replay=dict(kind="scenario", scenario=sc, what=["instances"], kinds=None),
                          key=f"{sc['job']}/{name}".replace(" ", "_"))

    def extra(sc, tl, inst, real):
        out, l8 = inside(tl, real)
        late(sc, l8)
        return out

    def observe(ctx, sc, tl, inst, real):
        ctx.count("events dropped or with a target dropped", len(tl.dropped))
        ctx.count("events kept", len(tl.final))
        if isinstance(sc["rb"]["downtime"], dict):
            ctx.count("per-target windows")

    # the known finding, every run
    if ctx.mine(0):
        rng = random.Random(5)
        for skill in ("Earthly Star", "Earthly Dominance", "Giant Dominance"):
            sc = dict(lib=dict(kind="real", version="7.0", level=100), job="AST", stats=G.rand_stats(rng, "AST", "7.0", 100),
                      rb=dict(snap_dots=None, autos=False, trailing=False, fight_start=0, downtime=[[5.0, 60.0]],
                              default_target="Default Target"),
                      presses=[dict(skill=skill, job=None, mod=None, targets=None, t=0)])
            probs, tl, inst, real = engine.compare(sc, ("instances",))
            if real is not None:
                late(sc, inside(tl, real)[1])
    o = Opts(autos=0.35, trailing=0.2, snap=0.2, downtime=1, multi=0.35, synth=0.5,
             features=("buffs", "debuffs", "cond", "follow", "dots", "auto"), length=(4, 25))
    engine.explore(ctx, o, ctx.n(600, 7000), ("events", "instances"), observe=observe, extra=extra)
    ctx.need("events dropped or with a target dropped", 800)
    ctx.need("per-target windows", 100)


def replay(ctx, case):
    probs, tl, inst, real = engine.compare(case["scenario"], case["what"], case.get("kinds"))
    if real is not None and real.inst is not None:
        out, l8 = inside(tl, real)
        probs = probs + out + [m for _, m in l8]
    for p in probs:
        ctx.violation(p, case)
