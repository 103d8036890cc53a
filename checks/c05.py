"""C05: damage over time."""
from vp import engine
from vp.gen import Opts

RULE = "distinct timelines; every DoT tick (time, target, snapshot) is compared with the reference schedule of its application"
ASSUMPTIONS = ["the same DoT applied twice at the same instant with different snapshots is skipped"]


def observe(ctx, sc, tl, inst, real):
    n = sum(e.kind == "dot" for e in tl.final)
    ctx.count("ticks compared", n)
    runs = {}
    for tg, fu, snap, app, end, ticks in tl.dot_runs:
        runs.setdefault((tg, fu.skill.name), []).append((app, end, fu.dot_duration))
    for k, v in runs.items():
        ctx.count("applications", len(v))
        ctx.count("applications cut short by a refresh", sum(e < a + d for a, e, d in v))
    if sc["rb"]["snap_dots"] is not None and n:
        ctx.count("timelines with server ticks")
    if sc["rb"]["trailing"] and n:
        ctx.count("timelines ignoring trailing dots")


def run(ctx):
    o = Opts(autos=0, trailing=0.4, snap=0.5, downtime=0.05, multi=0.25, must=("dots",), synth=0.6, prefer="dots",
             features=("buffs", "debuffs", "cond", "follow", "dots", "uses", "prio"), length=(2, 25))
    engine.explore(ctx, o, ctx.n(800, 9000), ("events", "instances"), kinds=("dot",), observe=observe)
    ctx.need("ticks compared", 3000)
    ctx.need("applications cut short by a refresh", 200)
    ctx.need("timelines with server ticks", 80)
    ctx.need("timelines ignoring trailing dots", 60)


replay = engine.replay_scenario
