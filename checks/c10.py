"""C10: status effects carried by every damage instance."""
from vp import engine
from vp.gen import Opts

RULE = ("distinct timelines; for every damage instance the set of buffs and of its target's debuffs, their combined effect and "
        "the resolved conditions are compared with the reference")
ASSUMPTIONS = ["scenarios whose outcome depends on the order of simultaneous events are skipped",
               "buffs a multi-target skill grants to its user are written as primary-target-only follow-ups, as the library does"]


def observe(ctx, sc, tl, inst, real):
    for x in inst:
        if isinstance(x["buffs"], dict) and x["buffs"]["names"]:
            ctx.count("instances with buffs")
        if isinstance(x["debuffs"], dict) and x["debuffs"]["names"]:
            ctx.count("instances with debuffs")


def run(ctx):
    o = Opts(autos=0.25, trailing=0.2, snap=0.2, downtime=0.15, multi=0.2, must=("buffs",), synth=0.6, prefer="buffy", party=0.2)
    engine.explore(ctx, o, ctx.n(650, 8000), ("instances",), observe=observe)
    o2 = Opts(autos=0.1, snap=0, downtime=0, multi=0.1, synth=0, party=0.35, prefer="buffy", length=(8, 35))
    engine.explore(ctx, o2, ctx.n(200, 3000), ("instances",), observe=observe, label="party")
    ctx.need("instances with buffs", 5000)
    ctx.need("instances with debuffs", 1000)


replay = engine.replay_scenario
