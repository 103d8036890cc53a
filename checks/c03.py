"""C03: exactly one snapshot/application event per press, at the right times."""
import contextlib
import io

from vp import engine
from vp import gen as G
from vp import model as M
from vp.gen import Opts
from vp.harness import RealCrash, call

RULE = ("distinct timelines with at least two events; every event of a pressed skill (snapshot time, application time, "
        "resolved conditions, targets) is compared with the one the press must produce, and the printed press log with the log")
ASSUMPTIONS = ["presses of the same skill at the same instant with different conditions or targets are skipped"]


def printed(sc, tl, inst, real):
    """The printed log lists the presses of the log, in order."""
    buf = io.StringIO()

    def go():
        with contextlib.redirect_stdout(buf):
            real.rb.print_button_press_timings_as_csv()
    try:
        call(go)
    except RealCrash as e:
        return [f"printing the press log: crash: {e}"]
    lines = [x for x in buf.getvalue().splitlines() if x.strip()]
    rows = []
    for x in lines:
        f = [y.strip() for y in x.split(",", 3)]
        try:
            t = float(f[0])
        except ValueError:
            continue
        if len(f) < 3:
            return []
        rows.append((round(t * 1000, 3), f[1], f[2], tuple(sorted(M.canon(f[3] if len(f) > 3 else "")))))
    want = [(round(p[0], 3),) + G.press_key_real(p)[1:] for p in real.presses]
    if any("," in r[1] for r in want):
        return []
    if rows != want:
        d = [(a, b) for a, b in zip(rows, want) if a != b][:2]
        return [f"the printed press log has {len(rows)} rows, the log {len(want)} presses; (printed, logged) differ at {d}"]
    return []


def observe(ctx, sc, tl, inst, real):
    ctx.count("press events compared", sum(e.kind == "press" for e in tl.final))
    ctx.count("presses with a cast time", sum(d["cast"] > 0 for d in tl.details))
    ctx.count("presses with delayed application", sum(d["app"] > d["t"] + d["cast"] for d in tl.details))
    ctx.count("rows of printed press logs compared", len(tl.presses))


def run(ctx):
    o = Opts(autos=0, trailing=0, snap=0, downtime=0, multi=0.15, must=("cond",), party=0.15, modp=0.25,
             features=("buffs", "debuffs", "cond", "combo", "res", "speed", "uses", "positional"), length=(3, 40))
    engine.explore(ctx, o, ctx.n(900, 9000), ("presses", "events"), kinds=("press",), observe=observe, extra=printed)
    ctx.need("press events compared", 5000)
    ctx.need("presses with a cast time", 500)
    ctx.need("presses with delayed application", 500)


def replay(ctx, case):
    engine.replay_scenario(ctx, case, extra=printed)
