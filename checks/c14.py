"""C14: which entry of a conditional specification applies."""
import itertools
import random

from vp import gen as G, model as M, engine
from vp.env import (ChannelingSpec, ComboSpec, DamageSpec, FollowUp, JobResourceSpec, JOBS, Skill, SkillModifier, StatusEffectSpec,
                    TimingSpec, VERSIONS, real_lib)
from vp.gen import Opts
from vp.harness import RealCrash, call

RULE = "distinct (set of keys, condition) queries on conditional specifications, with keys and conditions spelled in random order and spacing"
ASSUMPTIONS = ["queries where two different entries of the same size both match are not compared (the property does not rank them)"]
ATOMS = ["A", "B", "C D", "No Combo", "No Positional", "Target 2", "1 Gauge"]
FIELDS = ("damage_spec", "timing_spec", "buff_spec", "debuff_spec", "follow_up_skills", "job_resource_spec", "combo_spec")
GET = {"damage_spec": "get_damage_spec", "timing_spec": "get_timing_spec", "buff_spec": "get_buff_spec", "debuff_spec": "get_debuff_spec",
       "follow_up_skills": "get_follow_up_skills", "job_resource_spec": "get_job_resource_spec", "combo_spec": "get_combo_spec"}


def mk(field, i):
    if field == "damage_spec":
        return DamageSpec(potency=i + 1)
    if field == "timing_spec":
        return TimingSpec(base_cast_time=i + 1)
    if field in ("buff_spec", "debuff_spec"):
        return StatusEffectSpec(duration=i + 1)
    if field == "follow_up_skills":
        return (FollowUp(skill=Skill(name=f"f{i}"), delay_after_parent_application=i),)
    if field == "job_resource_spec":
        return (JobResourceSpec(name="r", change=i + 1),)
    return (ComboSpec(combo_group=i + 1),)


def spell(rng, atoms):
    atoms = list(atoms)
    rng.shuffle(atoms)
    sep = rng.choice([", ", ",", " , "])
    return sep.join(atoms)


def best(keys, cond):
    """(index, tie)"""
    m = [(len(k), i) for i, k in enumerate(keys) if k <= cond]
    if not m:
        return None, False
    top = max(m)[0]
    c = [i for n, i in m if n == top]
    return c[0], len(c) > 1


def one(rng_seed):
    """One random specification and several queries. Returns (problem, n queries, key)."""
    rng = random.Random(rng_seed)
    field = rng.choice(FIELDS)
    keys = [frozenset()] if rng.random() < 0.9 else []
    for _ in range(rng.randint(1, 7)):
        k = frozenset(rng.sample(ATOMS, rng.choice([1, 1, 2, 2, 3, 4])))
        if k not in keys:
            keys.append(k)
    rng.shuffle(keys)
    vals = [mk(field, i) for i in range(len(keys))]
    none_at = None
    if field in ("damage_spec", "buff_spec", "debuff_spec") and rng.random() < 0.3:
        none_at = rng.randrange(len(vals))
        vals[none_at] = None
    spec = {spell(rng, k): v for k, v in zip(keys, vals)}
    sk = call(Skill, name="sk", **{field: dict(spec)})
    n = 0
    for _ in range(6):
        cond = set(rng.sample(ATOMS, rng.choice([0, 1, 2, 3, 4, 5])))
        if rng.random() < 0.3:
            cond.add("Unknown")
        if rng.random() < 0.4:
            cond |= set(rng.choice(keys))
        i, tie = best(keys, cond)
        if tie or i is None:
            continue
        mod = call(SkillModifier, with_condition=spell(rng, cond))
        if rng.random() < 0.4 and len(cond) > 1:  # the same condition, accumulated in parts
            parts = list(cond)
            rng.shuffle(parts)
            mod = call(SkillModifier, with_condition=parts[0])
            for p in parts[1:]:
                call(mod.add_to_condition, p)
        got = call(getattr(sk, GET[field]), mod)
        n += 1
        if got is not vals[i] and got != vals[i]:
            return (f"{field} keys {[sorted(k) for k in keys]}, condition {sorted(cond)}: expected the entry of {sorted(keys[i])}, "
                    f"got {got}"), n, (field, keys)
        if set(mod.with_condition) != cond:
            return f"looking up {field} changed the condition {sorted(cond)} to {sorted(mod.with_condition)}", n, (field, keys)
    return None, n, (field, keys)


def real_queries(ctx, v, l, job):
    lib = real_lib(v, l)
    info = G.job_info(f"{v}/{l}", lib, job)
    rng = random.Random(f"C14/{ctx.seed}/{v}/{l}/{job}")
    for name in info.names:
        base = info.skills[name]
        for sk in [base] + [fu.skill for fu in G.all_follow_ups(base)]:
            for field in FIELDS:
                spec = getattr(sk, field)
                if not isinstance(spec, dict) or not spec:
                    continue
                keys = [M.canon(k) for k in spec]
                vals = list(spec.values())
                atoms = sorted({a for k in keys for a in k}) + ["Unknown"]
                conds = [set(), set(atoms)] + [set(k) for k in keys] + [set(rng.sample(atoms, rng.randint(1, len(atoms)))) for _ in range(3)]
                for cond in conds:
                    i, tie = best(keys, cond)
                    if tie or i is None:
                        continue
                    got = call(getattr(sk, GET[field]), call(SkillModifier, with_condition=spell(rng, cond)))
                    ctx.seen((sk.name, field, sorted(map(sorted, keys)), sorted(cond)), nontrivial=len(keys) > 1)
                    ctx.count("queries on the game's skills")
                    if got is not vals[i] and got != vals[i]:
                        ctx.violation(f"{v}/{l} {job} {sk.name} {field}, condition {sorted(cond)}: expected the entry of {sorted(keys[i])}, got {got}",
                                      dict(kind="real", v=v, l=l, job=job))
                        return


def run(ctx):
    for i in range(ctx.n(6000, 150000)):
        if ctx.stop():
            break
        s = f"C14/{ctx.seed}/{i}"
        try:
            p, n, key = one(s)
        except RealCrash as e:
            p, n, key = f"crash: {e}", 0, None
        ctx.count("queries on random specifications", n)
        ctx.seen(key, nontrivial=n > 0)
        if i < 2:
            ctx.sample(str(key))
        if p:
            ctx.violation(p, dict(kind="random", s=s))
    for i, (v, l) in enumerate(VERSIONS):
        for j, job in enumerate(JOBS):
            if ctx.mine(i * len(JOBS) + j) and real_lib(v, l).has_job_class(job) and not ctx.stop():
                try:
                    real_queries(ctx, v, l, job)
                except RealCrash as e:
                    ctx.violation(f"crash: {e} [{v}/{l} {job}]", dict(kind="real", v=v, l=l, job=job))
    o = Opts(synth=0.6, must=("cond",), snap=0, downtime=0, autos=0.1, multi=0.15, condp=0.7)
    engine.explore(ctx, o, ctx.n(150, 3000), ("events", "instances"))
    ctx.need("queries on random specifications", 5000)
    ctx.need("queries on the game's skills", 1000)


def replay(ctx, case):
    if case["kind"] == "scenario":
        return engine.replay_scenario(ctx, case)
    if case["kind"] == "real":
        return real_queries(ctx, case["v"], case["l"], case["job"])
    p, _, _ = one(case["s"])
    if p:
        ctx.violation(p)
