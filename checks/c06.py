"""C06: auto attacks."""
from vp import engine
from vp.gen import Opts

RULE = "distinct timelines; the complete list of auto attacks (time, landing time, target) is compared with the reference schedule"
ASSUMPTIONS = ["casts of sequenced presses do not pause autos (documented limitation pinned by the repository's own tests)",
               "values on a 10 ms boundary that binary floating point cannot represent are skipped"]


def observe(ctx, sc, tl, inst, real):
    ctx.count("autos compared", len(tl.auto_times))
    d = {b[0] - a[0] for a, b in zip(tl.auto_times, tl.auto_times[1:])}
    ctx.count("timelines whose auto delay varies", int(len(d) > 1))
    ctx.count("timelines with several auto targets", int(len({x[1] for x in tl.auto_times}) > 1))


def run(ctx):
    o = Opts(autos=1, trailing=0.3, snap=0.1, downtime=0.25, multi=0.2, must=("speed", "buffs", "auto"), synth=0.6, prefer="buffy",
             features=("buffs", "debuffs", "cond", "dots", "speed", "channel", "auto", "follow", "prio", "uses", "combo", "res"), length=(3, 22))
    engine.explore(ctx, o, ctx.n(420, 5000), ("events",), kinds=("auto",), observe=observe)
    ctx.need("autos compared", 3000)
    ctx.need("timelines whose auto delay varies", 60)
    ctx.need("timelines with several auto targets", 30)


replay = engine.replay_scenario
