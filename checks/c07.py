"""C07: no autos while casting or channeling (timed presses)."""
from vp import decl, engine
from vp.gen import Opts, rnd
from vp.harness import RealCrash, call

RULE = ("distinct timelines; the no-auto periods (get_no_auto_periods) are compared with the casts and channels of the timed "
        "presses, and the auto attacks with the schedule that waits for the end of each period")
ASSUMPTIONS = ["only timed presses (add) are considered: the repository's own tests pin that sequenced casts do not pause autos"]


def extra(sc, tl, inst, real):
    try:
        got = call(real.rb.get_no_auto_periods)
    except RealCrash as e:
        return [f"crash: get_no_auto_periods: {e}"]
    want = tl.no_auto_periods()
    g = sorted((rnd(a), rnd(b)) for a, b in got)
    w = sorted((rnd(a), rnd(b)) for a, b in want)
    if g != w:
        return [f"no-auto periods: code {g[:5]} reference {w[:5]}"]
    return []


def observe(ctx, sc, tl, inst, real):
    ps = tl.no_auto_periods()
    ctx.count("no-auto periods compared", len(ps))
    ctx.count("autos compared", len(tl.auto_times))
    for a, b in ps:
        if any(abs(x[0] - b) < 1e-9 for x in tl.auto_times):
            ctx.count("autos held back to the end of a period")


def run(ctx):
    decl.declarations(ctx, decl.ChannelingSpec)
    o = Opts(autos=1, mode="timed", trailing=0.2, snap=0, downtime=0.1, multi=0.1, must=("channel",), synth=0.7,
             features=("buffs", "debuffs", "cond", "speed", "channel", "res", "combo", "uses", "prio"), length=(3, 22), condp=0.2)
    engine.explore(ctx, o, ctx.n(380, 4500), ("events",), kinds=("auto",), observe=observe, extra=extra)
    o2 = Opts(autos=1, mode="timed", trailing=0.2, snap=0, downtime=0, synth=0, condp=0.2, length=(3, 20),
              jobs=["BLM", "WHM", "SMN", "RDM", "PCT", "SAM", "MNK", "DNC", "MCH", "PLD", "NIN"])
    engine.explore(ctx, o2, ctx.n(120, 1500), ("events",), kinds=("auto",), observe=observe, extra=extra, label="real")
    ctx.need("no-auto periods compared", 800)
    ctx.need("autos held back to the end of a period", 80)


def replay(ctx, case):
    engine.replay_scenario(ctx, case, extra)
