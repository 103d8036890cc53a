"""C08: where time zero is."""
import copy
import random

from vp import engine
from vp import gen as G
from vp import model as M
from vp.harness import RealCrash

RULE = ("distinct timelines whose origin was compared with the reference; for each, the same rotation pressed at other absolute times "
        "must come out identical (no fight start time) or shifted by exactly as much (given one)")
ASSUMPTIONS = ["the damage of a skill is known when the rotation is laid out (AST's delayed star, whose damage depends on a status effect "
               "looked up later, does not set the origin)"]


def pic(r, dt=0):
    ev = [(round(e[0] + dt, 3), round(e[1] + dt, 3)) + e[2:] for e in (G.ev_key_real(e) for e in r.events)]
    pr = [(round(p[0] + dt, 3),) + p[1:] for p in (G.press_key_real(p) for p in r.presses)]
    it = [(round(x[0] + dt, 3),) + x[1:] for x in (G.inst_key_real(x) for x in r.inst)]
    return ev, pr, it


def check(sc, delta, seen):
    probs, tl, inst, real = engine.compare(sc, ("presses", "events", "instances"))
    if real is None or probs:
        return probs, tl
    fs = sc["rb"]["fight_start"]
    if fs is None:
        dmg = [(e.event_times.primary if e.event_times.secondary is None else e.event_times.secondary) for e in real.events
               if M.resolve(e.skill.damage_spec, frozenset(e.skill_modifier.with_condition)) is not None]
        if dmg and sc["rb"]["downtime"] is None and not sc["rb"]["autos"]:
            seen["first damage at zero"] = seen.get("first damage at zero", 0) + 1
            if min(dmg) != 0:
                probs.append(f"without a fight start time the first damage lands at {min(dmg)}, not at 0")
    if all(p["t"] is not None for p in sc["presses"]) and sc["rb"]["snap_dots"] is None and (fs is None or sc["rb"]["downtime"] is None):
        s2 = copy.deepcopy(sc)
        for p in s2["presses"]:
            p["t"] += delta
        try:
            r2 = G.run_real(s2)
        except RealCrash as e:
            return [f"crash after moving all presses by {delta} ms: {e}"], tl
        # without a fight start, a rotation with damage is placed relative to its first damage
        rel = fs is None and tl._first_damage() is not None
        a, b = pic(real), pic(r2, 0 if rel else -delta)
        for n, x, y in zip(("events", "button presses", "damage instances"), a, b):
            d1, d2 = G.diff(x, y)
            if d1 or d2:
                probs.append(f"{n} change when all presses are moved by {delta} ms: {d1[:2]} became {d2[:2]}")
        seen["moved rotations" + (" (relative)" if rel else " (absolute)")] = seen.get("moved rotations" + (" (relative)" if rel else " (absolute)"), 0) + 1
    return probs, tl


def run(ctx):
    done = i = 0
    n = ctx.n(500, 6000)
    while done < n and i < 3 * n and not ctx.stop():
        i += 1
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{i}")
        o = G.Opts(autos=0.25, trailing=0.2, snap=0.1, downtime=0.15, multi=0.15, fight_start=0.35, mode=rng.choice(["timed", "timed", "mix"]),
                   length=(1, 14), synth=0.5)
        sc = G.gen_scenario(rng, o)
        if not sc["presses"]:
            continue
        delta = rng.choice([-5000, 1000, 12340, 7, -13, 600000, 3000])
        seen = {}
        try:
            probs, tl = check(sc, delta, seen)
        except G.SKIP:
            continue
        done += 1
        ctx.count("scenarios")
        ctx.count("timelines shifted by the reference", int(tl.shift != 0))
        for k, v in seen.items():
            ctx.count(k, v)
        ctx.seen((engine.signature(tl), tl.shift), nontrivial=len(tl.final) > 1)
        if done <= 2:
            ctx.sample(dict(lib=sc["lib"], job=sc["job"], rb=sc["rb"], shift=tl.shift))
        if probs:
            small = engine.shrink(sc, lambda c: check(c, delta, {})[0], tries=60)
            try:
                probs = check(small, delta, {})[0] or probs
            except Exception:  # noqa
                pass
            ctx.violation(f"{probs[0]} [lib={small['lib']} rb={small['rb']} presses={small['presses'][:5]}]", dict(scenario=small, delta=delta))
    ctx.need("moved rotations (relative)", 300)
    ctx.need("moved rotations (absolute)", 150)
    ctx.need("first damage at zero", 300)
    ctx.need("timelines shifted by the reference", 300)


def replay(ctx, case):
    probs, _ = check(case["scenario"], case["delta"], {})
    for p in probs:
        ctx.violation(p)
