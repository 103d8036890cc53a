"""C21: hits on several targets."""
import random

from vp import engine
from vp import gen as G
from vp import model as M
from vp.env import (JOBS, VERSIONS, DamageBuilder, DamageClass, DamageSpec, FollowUp, RotationBuilder, Skill, SkillLibrary,
                    SkillModifier, Stats, StatusEffectSpec, TimingSpec, real_lib)
from vp.harness import RealCrash, call

RULE = ("distinct multi-target timelines compared with the reference (who is hit, when, with which debuffs), plus every skill of every "
        "library that declares a dropoff, used on 2 to 10 targets under every condition it knows")
ASSUMPTIONS = ["buffs a multi-target skill grants to its user are written as primary-target-only follow-ups, as the library does"]
NAMES = [f"T{i}" for i in range(1, 13)]


def observe(ctx, sc, tl, inst, real):
    for x in inst or ():
        if x["target"] != sc["rb"]["default_target"]:
            ctx.count("instances on other targets")
        if x["debuffs"]["names"] if isinstance(x["debuffs"], dict) else False:
            ctx.count("instances with a debuff of their target")
    ctx.count("events on several targets", sum(len(e.targets) > 1 for e in tl.final))


def drop_case(case, seen):
    """One skill that declares a dropoff, on k targets."""
    version, level, job, name, cond, k, extra = (case[x] for x in ("version", "level", "job", "name", "cond", "k", "extra"))
    lib = real_lib(version, level)
    sk = lib.get_skill(name, job)
    st = G.rand_stats(random.Random(3), job, version, level)
    stats = call(Stats, **st)
    tg = [NAMES[(i + case["off"]) % 12] for i in range(k)]

    def go():
        rb = RotationBuilder(stats, lib, fight_start_time=0)
        mod = SkillModifier(with_condition=cond) if cond else SkillModifier()
        rb.add(2.0, name, skill_modifier=mod, targets=", ".join(tg))
        return DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing())
    try:
        inst = call(go)
    except RealCrash as e:
        return [(name, f"crash: {e}")]
    out = []
    by = {}
    for x in inst:
        by.setdefault((x[1].name, x[4]), []).append(x)
    specs = {sk.name: [sk]}
    for fu in G.all_follow_ups(sk):
        specs.setdefault(fu.skill.name, []).append(fu.skill)
    for (n, _), xs in by.items():
        xs = sorted(xs, key=lambda x: x[0])
        if xs[0][1].aoe_dropoff is None or len(xs) < 2:
            continue
        d = xs[0][1].aoe_dropoff
        seen["dropoff hits"] = seen.get("dropoff hits", 0) + len(xs)
        p0 = xs[0][1].get_damage_spec(xs[0][2]).potency
        if [x[5] for x in xs] != tg:
            out.append((n, f"hits {[x[5] for x in xs]} for targets {tg}"))
        for i, x in enumerate(xs):
            if x[0] != xs[0][0] + 135 * i:
                out.append((n, f"target {i + 1} is hit {x[0] - xs[0][0]} ms after the first, expected {135 * i}"))
            want = p0 if i == 0 else (1 - d) * p0
            got = x[1].get_damage_spec(x[2]).potency
            if abs(got - want) > 1e-9 * max(1, p0):
                out.append((n if got == p0 else None, f"{job} {name}{' (' + cond + ')' if cond else ''} on {k} targets: target {i + 1} has potency {got}, the primary {p0}, dropoff {d}"))
                break
    return out


def synth_case(seed, seen):
    """A skill whose potency depends on conditions, with a dropoff and per-target debuffs, on k targets."""
    rng = random.Random(seed)
    d = rng.choice([0.1, 0.25, 0.4, 0.5, 0.6, 0.65, 0.75, 1.0, 0])
    conds = ["", "A", "B", "A, B"][: rng.randint(1, 4)]
    pots = {c: rng.choice([100, 250, 333, 700]) for c in conds}
    lib = SkillLibrary("7.0", 100)
    lib.set_current_job_class("SAM")
    delay = rng.choice([0, 500, 130, 700])
    lib.add_skill(Skill(name="hit", is_GCD=True, has_aoe=True, aoe_dropoff=d, timing_spec=TimingSpec(base_cast_time=0, application_delay=delay),
                        damage_spec={c: DamageSpec(potency=p) for c, p in pots.items()}))
    lib.add_skill(Skill(name="mark", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, application_delay=0),
                        debuff_spec=StatusEffectSpec(duration=60000, damage_mult=1.1, add_to_skill_modifier_condition=False)))
    k = rng.randint(1, 10)
    tg = rng.sample(NAMES, k)
    marked = rng.sample(NAMES, rng.randint(0, 6))
    cond = rng.choice(["", "A", "B", "A, B"])
    st = G.rand_stats(random.Random(3), "SAM", "7.0", 100)
    stats = call(Stats, **st)

    def go():
        rb = RotationBuilder(stats, lib, fight_start_time=0)
        for i, m in enumerate(marked):
            rb.add(0.1 + 0.01 * i, "mark", targets=m)
        rb.add(5.0, "hit", skill_modifier=SkillModifier(with_condition=cond), targets=",".join(tg) if rng.random() < 0.5 else " , ".join(tg))
        return DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing())
    inst = call(go)
    have = {x.strip() for x in cond.split(",") if x.strip()}
    keys = [frozenset(x.strip() for x in c.split(",") if x.strip()) for c in conds]
    fits = [(len(kk), kk) for kk in keys if kk <= have]
    best = max(n for n, _ in fits)
    if sum(n == best for n, _ in fits) > 1:
        return []
    base = next(p for c, p in pots.items() if frozenset(x.strip() for x in c.split(",") if x.strip()) == max(fits)[1])
    want = sorted((5000 + delay + 135 * i, t, round(base if i == 0 else (1 - d) * base, 6), 1.1 if t in marked else 1.0) for i, t in enumerate(tg))
    got = sorted((x[0], x[5], round(x[1].get_damage_spec(x[2]).potency, 6), round(float(x[3][1].damage_mult), 6)) for x in inst)
    seen["synthetic dropoff hits"] = seen.get("synthetic dropoff hits", 0) + len(want)
    if got != want:
        return [f"(time, target, potency, debuff multiplier) of a hit on {k} targets with dropoff {d}, delay {delay}, marked {sorted(marked)}: "
                f"only in code {[g for g in got if g not in want][:3]}, only expected {[w for w in want if w not in got][:3]}"]
    return []


def report(ctx, case, found):
    for n, msg in found:
        # the known finding is precisely: the dropoff has no effect for this skill
        key = f"{case['job']}/{case['name']}".replace(" ", "_") if n and "has potency" in msg else None
        ctx.violation(msg, dict(kind="drop", case=case), key=key)


def run(ctx):
    seen = {}
    i = 0
    for version, level in VERSIONS:
        lib = real_lib(version, level)
        for job in JOBS:
            if not lib.has_job_class(job):
                continue
            info = G.job_info(("real", version, level), lib, job)
            for name in info.usable:
                sk = info.skills[name]
                fams = [sk] + [fu.skill for fu in G.all_follow_ups(sk)]
                if all(s.aoe_dropoff is None for s in fams):
                    continue
                i += 1
                if not ctx.mine(i) or len(ctx.violations) >= 3:
                    continue
                rng = random.Random(f"{ctx.base_seed}/{version}/{level}/{job}/{name}")
                for c in sorted({""} | {", ".join(sorted(x for x in k if not x.startswith("Target "))) for k in G.cond_keys(sk)}):
                    ks = {2, 10, rng.randint(3, 9)} if ctx.quick else set(range(2, 11))
                    for k in sorted(ks):
                        case = dict(version=version, level=level, job=job, name=name, cond=c, k=k, extra=None, off=rng.randint(0, 11))
                        try:
                            found = drop_case(case, seen)
                        except G.SKIP:
                            continue
                        ctx.count("skills with a dropoff x condition x number of targets")
                        ctx.seen(("drop", case))
                        report(ctx, case, found)
    for j in range(ctx.n(120, 2000)):
        if ctx.stop():
            break
        s = f"{ctx.seed}/{j}"
        try:
            p = synth_case(s, seen)
        except RealCrash as e:
            p = [f"crash: {e}"]
        ctx.seen(("synth", s))
        for m in p:
            ctx.violation(m, dict(kind="synth", seed=s))
    for k, v in seen.items():
        ctx.count(k, v)
    o = G.Opts(autos=0.2, trailing=0.2, snap=0.1, downtime=0.1, multi=0.7, synth=0.5, party=0.05, length=(3, 18),
               features=("buffs", "debuffs", "cond", "follow", "dots"))
    engine.explore(ctx, o, ctx.n(350, 5000), ("events", "instances"), observe=observe)
    ctx.need("dropoff hits", 5000)
    ctx.need("synthetic dropoff hits", 1000)
    ctx.need("events on several targets", 2000)
    ctx.need("instances with a debuff of their target", 1000)


def replay(ctx, case):
    if case["kind"] == "drop":
        for n, m in drop_case(case["case"], {}):
            ctx.violation(m)
    elif case["kind"] == "synth":
        for m in synth_case(case["seed"], {}):
            ctx.violation(m)
    else:
        engine.replay_scenario(ctx, case)
