"""C15: positionals inferred from the logged bonus percentage."""
import random

from vp import engine, gen as G, model as M
from vp.env import DamageSpec, FollowUp, JOBS, Skill, SkillModifier, VERSIONS, real_lib
from vp.gen import Opts
from vp.harness import RealCrash, call
from ama_xiv_combat_sim.simulator.utils import Utils

RULE = "distinct (positional skill, condition, bonus percentage) queries, including percentages no outcome explains"


def rand_skill(rng):
    base = rng.choice([100, 200, 260, 300, 340])
    d = {"": base + 160, "No Positional": base + rng.choice([60, 100]), "No Combo": base + rng.choice([40, 60]), "No Combo, No Positional": base}
    extra = {}
    if rng.random() < 0.4:
        add = rng.choice([50, 100, 150])
        for k, v in d.items():
            extra[", ".join(x for x in ("Enh", k) if x)] = v + add
    full = {**d, **extra}
    for k in list(full):
        if rng.random() < 0.05 and k:
            del full[k]
    if not any("No Positional" in k for k in full):
        full["No Positional"] = base
    kw = {}
    for k, v in full.items():
        kw[k] = dict(potency=v)
        if rng.random() < 0.08:
            kw[k]["use_min_potency"] = rng.choice([base, base + 40, base - 40])
    return dict(spec=kw, ignored=["Enh"] if extra and rng.random() < 0.4 else [], via="follow" if rng.random() < 0.25 else "self")


def build(s):
    d = {k: DamageSpec(**v) for k, v in s["spec"].items()}
    if s["via"] == "self":
        return Skill(name="pos", damage_spec=d, ignored_conditions_for_bonus_potency=tuple(s["ignored"]))
    return Skill(name="pos", ignored_conditions_for_bonus_potency=tuple(s["ignored"]),
                 follow_up_skills={k: (FollowUp(skill=Skill(name="none"), delay_after_parent_application=0),
                                       FollowUp(skill=Skill(name="hit", damage_spec=v), delay_after_parent_application=0)) for k, v in d.items()})


def query(sk, cond, bonus):
    """problem or None; the second value says what happened."""
    want = M.positional(sk, frozenset(cond), bonus)
    mod = call(SkillModifier, with_condition=", ".join(sorted(cond)), bonus_percent=bonus)
    no_match = False
    try:
        got = M.canon(call(Utils.get_positional_condition, sk, mod))
    except RealCrash as e:
        if not isinstance(e.exc, ValueError):
            raise
        no_match = True
        got = frozenset(cond)
    # the returned conditions are added to those already present
    if got | set(cond) != want:
        return f"condition {sorted(cond)}, bonus {bonus}%: code {'no match' if no_match else sorted(got)}, reference {sorted(want)}", "x"
    if set(mod.with_condition) != set(cond):
        return f"the query changed the condition {sorted(cond)} to {sorted(mod.with_condition)}", "x"
    return None, ("no match" if no_match else "positional missed" if "No Positional" in want else "positional hit")


def queries(sk, rng, pool):
    bon = G.bonus_values(sk)
    for _ in range(8):
        cond = set(rng.sample(pool, rng.randint(0, min(3, len(pool)))))
        b = rng.choice([None, 0, 0, rng.choice(bon), rng.choice(bon), rng.choice(bon), rng.randint(1, 90)])
        yield cond, b


def run(ctx):
    for i in range(ctx.n(3000, 60000)):
        if ctx.stop():
            break
        rng = random.Random(f"C15/{ctx.seed}/{i}")
        s = rand_skill(rng)
        try:
            sk = call(build, s)
            for cond, b in queries(sk, rng, ["Enh", "No Combo", "Other", "Target 2"]):
                try:
                    p, what = query(sk, cond, b)
                except M.NoSpec:
                    continue
                ctx.count("random skills: " + what)
                ctx.seen((s, sorted(cond), b))
                if p:
                    ctx.violation(f"{p} [{s}]", dict(kind="random", s=s, cond=sorted(cond), b=b))
                    break
        except RealCrash as e:
            ctx.violation(f"crash: {e} [{s}]", dict(kind="random", s=s, cond=sorted(cond), b=b))
    k = 0
    for v, l in VERSIONS:
        lib = real_lib(v, l)
        for job in JOBS:
            if not lib.has_job_class(job):
                continue
            info = G.job_info(f"{v}/{l}", lib, job)
            for n in info.usable:
                sk = info.skills[n]
                keys = G.cond_keys(sk)
                if not any("No Positional" in x for x in keys):
                    continue
                k += 1
                if not ctx.mine(k) or ctx.stop():
                    continue
                rng = random.Random(f"C15/{ctx.seed}/{v}/{l}/{job}/{n}")
                pool = sorted({a for x in keys for a in x} - {"No Positional"}) + ["Other"]
                for cond, b in queries(sk, rng, pool):
                    try:
                        p, what = query(sk, cond, b)
                    except M.NoSpec:
                        continue
                    except RealCrash as e:
                        p, what = f"crash: {e}", "x"
                    ctx.count("game skills: " + what)
                    ctx.seen((v, l, job, n, sorted(cond), b))
                    if p:
                        ctx.violation(f"{p} [{v}/{l} {job} {n}]", dict(kind="real", v=v, l=l, job=job, n=n, cond=sorted(cond), b=b))
                        break
    o = Opts(synth=0.5, must=("positional", "combo"), snap=0, downtime=0, autos=0.1, multi=0.02, bonus=0.9,
             jobs=["DRG", "MNK", "NIN", "SAM", "RPR", "VPR"], condp=0.15, length=(6, 25))
    engine.explore(ctx, o, ctx.n(200, 4000), ("instances",))
    ctx.need("random skills: positional missed", 500)
    ctx.need("random skills: positional hit", 500)
    ctx.need("game skills: positional missed", 100)


def replay(ctx, case):
    if case["kind"] == "scenario":
        return engine.replay_scenario(ctx, case)
    sk = build(case["s"]) if case["kind"] == "random" else real_lib(case["v"], case["l"]).get_skill(case["n"], case["job"])
    p, _ = query(sk, set(case["cond"]), case["b"])
    if p:
        ctx.violation(p)
