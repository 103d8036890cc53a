"""C04: follow-up skills."""
from vp import decl, engine
from vp.gen import Opts

RULE = ("distinct timelines; every non-DoT follow-up event and its damage instance (time, target, the buffs and debuffs it "
        "snapshots) is compared with the reference")
ASSUMPTIONS = ["scenarios whose outcome depends on the order of simultaneous events are skipped"]


def observe(ctx, sc, tl, inst, real):
    ctx.count("follow-up events compared", sum(e.kind == "followup" for e in tl.final))
    ctx.count("follow-ups snapshotting with the parent", sum(e.kind == "followup" and e.snap < e.app for e in tl.final))
    ctx.count("follow-ups snapshotting only buffs or only debuffs", sum(
        e.kind == "followup" and e.snap < e.app and e.snaps[0] != e.snaps[1] for e in tl.final))


def run(ctx):
    decl.declarations(ctx, decl.FollowUp)
    o = Opts(autos=0, trailing=0, snap=0, downtime=0.1, multi=0.25, must=("follow", "buffs", "debuffs"), synth=0.7,
             features=("buffs", "debuffs", "cond", "res", "speed", "uses", "follow", "combo", "prio"), length=(3, 30))
    engine.explore(ctx, o, ctx.n(800, 9000), ("events", "instances"), kinds=("followup",), observe=observe)
    ctx.need("follow-up events compared", 1500)
    ctx.need("follow-ups snapshotting only buffs or only debuffs", 100)


replay = engine.replay_scenario
