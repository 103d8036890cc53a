"""C29: party effects, and skills used by other jobs of the party."""
import random

from vp import engine, gen as G, model as M
from vp.env import (JOBS, VERSIONS, DamageSpec, FollowUp, RotationBuilder, Skill, SkillLibrary, SkillModifier, Stats,
                    StatusEffectSpec, TimingSpec, real_lib)
from vp.gen import Opts
from vp.harness import RealCrash, call

RULE = ("distinct skills whose effect flags were recomputed, distinct uses of a party skill by a player of another job, and distinct rotations "
        "with skills of several jobs compared with the reference")
ASSUMPTIONS = ["skills of other jobs that need their own job's gauge are only used with the condition meant for that (off_class_default_condition)"]


def flags(sk):
    r = {}
    for kind in ("buff", "debuff"):
        specs = [s for s in G.values(getattr(sk, kind + "_spec")) if s is not None]
        for fu in G.all_follow_ups(sk):
            specs += [s for s in G.values(getattr(fu.skill, kind + "_spec")) if s is not None]
        r["has_" + kind] = bool(specs)
        r["has_party_" + kind] = any(s.is_party_effect for s in specs)
    return r


def flag_problem(sk, where):
    want = flags(sk)
    for k, v in want.items():
        try:
            got = bool(getattr(sk, k))
        except AttributeError as e:
            return f"{where}: {e}"
        if got != v:
            return f"{where}: {k} is {got}, but the skill {'has' if v else 'does not have'} such an effect"
    return None


def synth_skill(rng):
    def spec():
        return StatusEffectSpec(duration=1000, is_party_effect=rng.random() < 0.5)

    def maybe(p, none_dict=True):
        x = rng.random()
        if x > p:
            return None
        if x < p * 0.5:
            return spec()
        d = {"": rng.choice([None, spec()]) if none_dict else spec()}
        for k in rng.sample(["A", "B", "A, B"], rng.randint(1, 3)):
            d[k] = rng.choice([None, spec()]) if none_dict else spec()
        return d
    p = rng.choice([0, 0.2, 0.6])
    q = rng.choice([0.1, 0.5])

    def fu(k):
        return FollowUp(skill=Skill(name=f"f{k}", buff_spec=maybe(q, False), debuff_spec=maybe(q, False)), delay_after_parent_application=0)
    fus = tuple(fu(k) for k in range(rng.randint(0, 3)))
    if rng.random() < 0.4:
        fus = {"": fus, "A": tuple(fu(10 + k) for k in range(rng.randint(0, 2))), "B": ()}
    return Skill(name="s", buff_spec=maybe(p), debuff_spec=maybe(p), follow_up_skills=fus)


def off_class(v, l, job, name, host, how, mode):
    """One party skill used by another job, then a hit of the player."""
    sc = dict(lib=dict(kind="real", version=v, level=l), job=host, stats=G.rand_stats(random.Random(1), host, v, l),
              rb=dict(snap_dots=None, autos=False, trailing=False, fight_start=0, downtime=None, default_target="Default Target"),
              presses=[dict(skill=name, job=job, mod=None if how is None else dict(cond=how), targets=None, t=0 if mode == "timed" else None)])
    lib = real_lib(v, l)
    hit = next(n for n in ("Auto", "Shot") if n in G.job_info(G.libkey(sc["lib"]), lib, host).names)
    sc["presses"].append(dict(skill=hit, job=None, mod=None, targets=None, t=5000))
    return sc, hit


def check_off_class(args):
    v, l, job, name, host, mode = args
    sc, hit = off_class(v, l, job, name, host, None, mode)
    r = G.run_real(sc)
    own = [x for x in r.inst if x[1].name != hit]
    if own:
        return f"{name} of {job} used for a {host} deals the {host}'s damage: {[(x[0], x[1].name) for x in own][:3]}"
    hits = [x for x in r.inst if x[1].name == hit]
    if len(hits) != 1:
        return f"{name} of {job} used for a {host}: {len(hits)} hits instead of 1"
    b, d = hits[0][3]
    if not (list(b.status_effects) + list(d.status_effects)):
        return f"{name} of {job} used for a {host} has no effect on the {host}'s hit 5 s later"
    row = [p for p in r.presses if p[1] == name]
    if len(row) != 1 or row[0][2] != job:
        return f"{name} of {job} used for a {host} is logged as {row}"
    return None


def run(ctx):
    k = 0
    for v, l in VERSIONS:
        lib = real_lib(v, l)
        for j in JOBS:
            if not lib.has_job_class(j):
                continue
            info = G.job_info(G.libkey(dict(kind="real", version=v, level=l)), lib, j)
            for n in info.names:
                k += 1
                if not ctx.mine(k) or n.startswith("Wait "):
                    continue
                sk = info.skills[n]
                for s in [sk] + [fu.skill for fu in G.all_follow_ups(sk)]:
                    p = flag_problem(s, f"{v}/{l} {j} {n}")
                    if p:
                        ctx.violation(p, dict(kind="flag", args=[v, l, j, n]))
                ctx.count("library skills whose flags were recomputed")
                ctx.seen(("flag", v, l, j, n), any(flags(sk).values()))
                if ctx.stop() or not n in info.usable:
                    continue
                f = flags(sk)
                if f["has_party_buff"] or f["has_party_debuff"]:
                    rng = random.Random(f"C29/{ctx.seed}/{v}/{l}/{j}/{n}")
                    hosts = [h for h in JOBS if h != j and lib.has_job_class(h)]
                    for host in rng.sample(hosts, ctx.n(4, len(hosts))):
                        a = [v, l, j, n, host, rng.choice(["timed", "seq"])]
                        try:
                            p = check_off_class(a)
                        except RealCrash as e:
                            p = f"{n} of {j} used for a {host}: crash: {e}"
                        ctx.count("party skills used by another job")
                        ctx.seen(a)
                        if p:
                            ctx.violation(p, dict(kind="off", args=a))
    for i in range(ctx.n(400, 8000)):
        if ctx.stop():
            break
        s = f"{ctx.seed}/{i}"
        sk = call(synth_skill, random.Random(s))
        p = flag_problem(sk, f"skill {sk}")
        ctx.count("made-up skills whose flags were recomputed")
        ctx.seen(("synth", sorted(flags(sk).items()), str(sk)))
        if p:
            ctx.violation(p, dict(kind="synth", seed=s))
    o = Opts(synth=0, party=0.5, snap=0.1, downtime=0.1, autos=0.2, length=(4, 25), condp=0.15, modp=0.1)

    def obs(ctx, sc, tl, inst, real):
        ctx.count("uses of other jobs' skills", sum(1 for p in sc["presses"] if p["job"]))
    engine.explore(ctx, o, ctx.n(200, 4000), ("presses", "events", "instances"), observe=obs)
    ctx.need("party skills used by another job", 300)
    ctx.need("uses of other jobs' skills", 1000)


def replay(ctx, case):
    if case["kind"] == "scenario":
        return engine.replay_scenario(ctx, case)
    p = None
    if case["kind"] == "off":
        try:
            p = check_off_class(case["args"])
        except RealCrash as e:
            p = str(e)
    elif case["kind"] == "synth":
        p = flag_problem(synth_skill(random.Random(case["seed"])), "skill")
    else:
        v, l, j, n = case["args"]
        sk = real_lib(v, l).get_skill(n, j)
        for s in [sk] + [fu.skill for fu in G.all_follow_ups(sk)]:
            p = p or flag_problem(s, n)
    if p:
        ctx.violation(p)
