"""C11: lifetime, stacking and consumption of status effects, over random histories."""
import math
import random

from vp import decl, past, engine, gen as G, model as M
from vp.env import Skill, SkillModifier, StatusEffectSpec
from vp.gen import Opts
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker

RULE = ("distinct histories of applying, expiring and consuming effects (1 ms around every expiry included); after every step the "
        "compiled buffs and debuffs of every target are compared with the reference")
ASSUMPTIONS = ["time never goes backwards within a history, as in the timeline builders"]
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"]
TARGETS = ["Default Target", "Add 1", "Add 2"]
EFF = G.EFF + ("auto_attack_delay_mult", "haste_time_mult", "flat_cast_time_reduction", "flat_gcd_recast_time_reduction")


def rand_spec(rng):
    kw = dict(duration=rng.choice([1000, 5000, 10000, 15000, 30000, 15010, math.inf]))
    if kw["duration"] != math.inf and rng.random() < 0.4:
        kw["max_duration"] = int(kw["duration"] * rng.choice([1, 1.5, 2, 3]))
    if rng.random() < 0.15:
        kw["extends_existing_duration"] = False
    if rng.random() < 0.15:
        kw["extend_only"] = True
    for f, vs in (("crit_rate_add", [0.02, 0.1]), ("dh_rate_add", [0.03, 0.2]), ("damage_mult", [1.05, 1.1, 0.75]),
                  ("main_stat_add", [262, 300]), ("main_stat_mult", [0.5, 0.75]), ("auto_attack_delay_reduction", [0.1, 0.25]),
                  ("haste_time_reduction", [0.13, 0.25]), ("flat_cast_time_reduction", [1000, 2500]),
                  ("flat_gcd_recast_time_reduction", [500])):
        if rng.random() < 0.35:
            kw[f] = rng.choice(vs)
    if rng.random() < 0.35:
        kw["num_uses"] = rng.choice([1, 2, 3])
        if rng.random() < 0.6:
            kw["max_num_uses"] = kw["num_uses"] + rng.choice([0, 1, 2, 4])
    if rng.random() < 0.25:
        kw["skill_allowlist"] = tuple(rng.sample(["U1", "U2", "U3"], rng.randint(1, 2)))
    if rng.random() < 0.2:
        kw["expires_status_effects"] = tuple(rng.sample(NAMES, rng.randint(1, 2)))
    if rng.random() < 0.05:
        kw["clear_all_status_effects"] = True
    if rng.random() < 0.3:
        kw["add_to_skill_modifier_condition"] = True
    return kw


def history(rng):
    h = dict(skills={}, priority=[], users={}, ops=[])
    for n in NAMES:
        s = {}
        if rng.random() < 0.7:
            s["buff"] = {"": rand_spec(rng)}
            if rng.random() < 0.25:
                s["buff"]["X"] = None if rng.random() < 0.4 else rand_spec(rng)
        if rng.random() < 0.6 or not s:
            s["debuff"] = {"": rand_spec(rng)}
            if rng.random() < 0.25:
                s["debuff"]["X"] = None if rng.random() < 0.4 else rand_spec(rng)
        h["skills"][n] = s
    if rng.random() < 0.35:
        h["priority"] = rng.sample(NAMES, rng.randint(2, 4))
    for u in ("U1", "U2", "U3"):
        h["users"][u] = rng.sample(NAMES, 1) if rng.random() < 0.3 else []
    return h


def build(h):
    def spec(d):
        d = {k: (None if v is None else StatusEffectSpec(**{a: (tuple(b) if isinstance(b, list) else b) for a, b in v.items()})) for k, v in d.items()}
        return d[""] if len(d) == 1 else d
    sk = {n: Skill(name=n, buff_spec=spec(s["buff"]) if "buff" in s else None, debuff_spec=spec(s["debuff"]) if "debuff" in s else None)
          for n, s in h["skills"].items()}
    us = {n: Skill(name=n, status_effect_denylist=tuple(d)) for n, d in h["users"].items()}
    return sk, us


def real_row(x):
    s, c = x
    return tuple(round(float(getattr(s, f)), 9) + 0.0 for f in EFF) + (tuple(sorted(s.status_effects)), tuple(sorted(M.canon(c))))


def model_row(x):
    s, c = x
    return tuple(round(float(s[f]), 9) + 0.0 for f in EFF) + (tuple(sorted(s["names"])), tuple(sorted(c)))


def play(h, rng=None, steps=None):
    """With rng: generates the operations while playing. Returns problem or None."""
    sk, us = build(h)
    real = call(StatusEffectTracker, tuple(h["priority"]))
    mod = M.Effects(h["priority"])
    ops = h["ops"] if rng is None else None
    t = 0
    n = len(h["ops"]) if rng is None else steps
    stat = dict(ops=0, boundary=0, active=0)
    for i in range(n):
        if rng is not None:
            # times: often exactly at, or 1 ms around, the end of some effect
            ends = [e[1] for m in [mod.buffs] + list(mod.debuffs.values()) for e in m.values() if e[1] != math.inf and e[1] >= t]
            x = rng.random()
            if ends and x < 0.4:
                t = max(t, rng.choice(ends) + rng.choice([-1, 0, 0, 1]))
                stat["boundary"] += 1
            elif x < 0.6:
                pass
            else:
                t += rng.choice([0, 1, 10, 500, 1000, 2500, 5000, 14000])
            if rng.random() < 0.45:
                op = ["apply", t, rng.choice(NAMES), rng.random() < 0.3, rng.sample(TARGETS, rng.choice([1, 1, 1, 2, 3]))]
            else:
                op = [rng.choice(["buffs", "debuffs"]), t, rng.choice(["U1", "U2", "U3"]), rng.choice(TARGETS)]
            h["ops"].append(op)
        else:
            op = ops[i]
        stat["ops"] += 1
        t = op[1]
        call(real.expire_status_effects, t)
        mod.expire(t)
        if op[0] == "apply":
            cond = {"X"} if op[3] else set()
            call(real.add_to_status_effects, t, sk[op[2]], SkillModifier(with_condition="X") if op[3] else SkillModifier(), tuple(op[4]))
            mod.apply(t, sk[op[2]], frozenset(cond), tuple(op[4]))
        else:
            if op[0] == "buffs":
                a = real_row(call(real.compile_buffs, t, us[op[2]]))
                b = model_row(mod.compile_buffs(t, us[op[2]]))
            else:
                a = real_row(call(real.compile_debuffs, t, us[op[2]], op[3]))
                b = model_row(mod.compile_debuffs(t, us[op[2]], op[3]))
            stat["active"] += bool(b[-2])
            if a != b:
                return f"step {i} {op}: code {a}, reference {b}", stat
    return None, stat


def run(ctx):
    decl.declarations(ctx, decl.StatusEffectSpec)
    for i in range(ctx.n(2500, 60000)):
        if ctx.stop():
            break
        rng = random.Random(f"C11/{ctx.seed}/{i}")
        h = history(rng)
        try:
            p, st = play(h, rng, rng.choice([6, 15, 40]))
        except RealCrash as e:
            p, st = f"crash: {e}", {}
        for k, v in st.items():
            ctx.count({"ops": "operations", "boundary": "steps within 1 ms of an expiry", "active": "queries with active effects"}[k], v)
        ctx.seen(h)
        if i < 2:
            ctx.sample(str(h["ops"][:5]))
        if p:
            ctx.violation(f"{p} [history {h['ops'][-8:]}, skills {h['skills']}]", dict(kind="history", h=h))
    o = Opts(synth=0.7, must=("buffs", "debuffs", "uses"), snap=0, downtime=0, autos=0.1, trailing=0.2, multi=0.15, prefer="buffy", length=(8, 35))
    engine.explore(ctx, o, ctx.n(250, 4000), ("instances",))
    past.explore(ctx, ctx.n(150, 4000), ("buffs", "debuffs", "cond", "uses", "follow", "prio", "speed"), ("buffs", "debuffs", "uses"))
    ctx.need("queries with active effects", 3000)
    ctx.need("steps within 1 ms of an expiry", 3000)


def replay(ctx, case):
    if case["kind"] == "scenario":
        return engine.replay_scenario(ctx, case)
    if case["kind"] == "past":
        p = past.check(ctx, case)
        return ctx.violation(p, case) if p else None
    h = case["h"]
    for s in h["skills"].values():  # json keeps inf as Infinity: nothing to restore
        pass
    p, _ = play(h)
    if p:
        ctx.violation(p)
