"""C02: pacing of sequenced presses."""
from vp import decl, engine
from vp.gen import Opts

RULE = ("a scenario counts when it has at least two presses; distinct = different timelines. Each press of add_next is "
        "observed through get_button_press_timing and compared with the time the pacing rules give it")
ASSUMPTIONS = ["speed, haste and flat reductions are the ones the reference status tracker has at the press",
               "values on a 10 ms boundary that binary floating point cannot represent are skipped"]


def observe(ctx, sc, tl, inst, real):
    for d in tl.details:
        if d["cast"] > 0:
            ctx.count("presses with a cast time")
    ctx.count("presses compared", len(tl.presses))
    if any("speed" in f for f in sc["lib"].get("features", ())):
        ctx.count("scenarios with haste effects available")


def run(ctx):
    decl.declarations(ctx, decl.TimingSpec)
    o = Opts(mode="seq", autos=0, trailing=0, snap=0, downtime=0, multi=0.05, must=("speed", "buffs"),
             features=("buffs", "debuffs", "cond", "combo", "res", "speed", "uses", "follow", "force", "prio"), synth=0.65,
             length=(4, 40), party=0.1, prefer="buffy", fight_start=0.3)
    engine.explore(ctx, o, ctx.n(700, 8000), ("presses",), observe=observe, label="seq")
    o2 = Opts(mode="seq", autos=0, snap=0, downtime=0, synth=0, jobs=["MNK", "NIN", "BLM", "AST", "SAM", "BRD", "PCT", "WHM"],
              length=(6, 45), prefer="buffy", condp=0.2)
    engine.explore(ctx, o2, ctx.n(250, 3000), ("presses",), observe=observe, label="haste jobs")
    ctx.need("presses compared", 3000)
    ctx.need("presses with a cast time", 300)


replay = engine.replay_scenario
