"""C28: dying clears everything the player had; weakness lasts exactly as declared."""
import copy
import random

from checks.c25 import plain_gcd
from vp import gen as G
from vp import model as M
from vp.env import CASTERS, HEALERS, DamageSimulator, real_lib
from vp.harness import RealCrash, call

RULE = ("distinct rotations with a death in the middle; what follows the death must come out exactly as if the fight had started there "
        "(buffs, conditions, gauges, combos, cast times), apart from the weakness itself; plus hits 1 ms around the end of the weakness")
ASSUMPTIONS = ["all presses are timed; everything pressed before the death has taken effect by then; debuffs on the enemies are left out there, and watched in the second part"]
DEATHS = {"Death": None, "Weakness": 0.75, "Brink of Death": 0.5}


def base(rng):
    o = G.Opts(synth=0, mode="timed", length=(4, 16), autos=0, trailing=0, snap=0, fight_start=0, downtime=0, multi=0, party=0, bonus=0,
               tie=0, modp=0.1, condp=0.1, prefer=rng.choice(["buffy", "gcds", None]))
    sc = G.gen_scenario(rng, o)
    sc["rb"].update(fight_start=0, default_target="Default Target")
    return sc


def split(sc, rng, later=0):
    """later: so much later that nothing can be left on the enemies either"""
    lib = G.get_lib(sc["lib"])
    ps = [p for p in sc["presses"] if p["t"] is not None and p["skill"] not in DEATHS
          and (later or not lib.get_skill(p["skill"], sc["job"]).has_debuff)]
    ps.sort(key=lambda p: p["t"])
    if len(ps) < 4:
        return None
    k = rng.randint(1, len(ps) - 2)
    pre, post = ps[:k], ps[k:]
    m = copy.deepcopy(sc)
    m["presses"] = pre
    tl, _ = G.run_model(m, instances=False)
    end = max(e.app for e in tl.events if e.kind != "dot") if tl.events else 0
    last = pre[-1]["t"]
    if end - last > 12000:
        return None
    t = int(max(end, last)) + rng.choice([1, 10, 500]) + later
    shift = t + rng.choice([10, 500, 1500]) - post[0]["t"]
    post = [dict(p, t=p["t"] + shift) for p in post]
    return pre, t, post


def check(case, seen):
    rng = random.Random(case["seed"])
    sc = base(rng)
    cut = split(sc, rng, 900000 if case.get("later") else 0)
    if cut is None:
        return "skip"
    pre, t, post = cut
    how = case["how"]
    chain = [dict(skill=how, job=None, mod=None, targets=None, t=t)]
    if case.get("twice"):  # dying again while weak
        first = rng.choice(list(DEATHS))
        chain = [dict(skill=first, job=None, mod=None, targets=None, t=pre[0]["t"] - 500)] + chain
    full, alone = copy.deepcopy(sc), copy.deepcopy(sc)
    full["presses"] = pre + chain + post
    alone["presses"] = post
    # the outcome must not depend on ties
    G.run_model(full)
    G.run_model(alone)
    a, b = G.run_real(full), G.run_real(alone)
    start = post[0]["t"]
    ka = [G.press_key_real(p) for p in a.presses if p[0] >= start]
    kb = [G.press_key_real(p) for p in b.presses]
    x, y = G.diff(ka, kb)
    if x or y:
        return f"presses after {how} at {t} ms: {sorted(x)[:2]}, without a past they are {sorted(y)[:2]}"
    seen["presses after a death"] = seen.get("presses after a death", 0) + len(kb)
    mult = DEATHS[how]

    def key(i, full_run):
        b_ = i[3][0]
        snap_weak = how in b_.status_effects
        names = tuple(sorted(n for n in b_.status_effects if n != how))
        mm = b_.main_stat_mult / (mult if snap_weak else 1)
        return (G.rnd(i[0]), i[1].name, tuple(sorted(i[2].with_condition)), i[5], round(b_.damage_mult, 9), round(b_.crit_rate_add, 9),
                round(b_.dh_rate_add, 9), b_.main_stat_add, round(mm, 9), M.enum_name(b_.guaranteed_crit), M.enum_name(b_.guaranteed_dh), names)
    ia = [key(i, True) for i in a.inst]
    ib = [key(i, False) for i in b.inst]
    only_a, only_b = G.diff(ia, ib)
    if only_b:
        return f"hits after {how} at {t} ms differ from those without a past: missing {sorted(only_b)[:2]}, instead among {[z for z in sorted(only_a) if z[0] >= start][:3]}"
    seen["hits after a death"] = seen.get("hits after a death", 0) + len(ib)
    # nobody who is not weak counts as weak and the other way round
    for i in a.inst:
        w = how in i[3][0].status_effects
        if mult is None and w:
            return f"a plain death left the effect {how}"
    return None


def weakness(case, seen):
    """hits around the begin and the end of the weakness"""
    rng = random.Random(case["seed"])
    v, l = case["v"], case["l"]
    job = case["job"]
    lib = real_lib(v, l)
    hit = "Auto" if lib.has_skill("Auto", job) else "Shot"
    t0 = rng.randint(1000, 30000)
    offs = [-1, 1, 50000, 99999, 100001]
    how = case["how"]
    pot = "Grade 8 Tincture"
    presses = [dict(skill=pot, job=None, mod=None, targets=None, t=t0 - 900),
               dict(skill=how, job=None, mod=None, targets=None, t=t0)]
    if job != "SCH":  # on the enemy: not touched by a death
        presses.append(dict(skill="Chain Stratagem", job="SCH", mod=None, targets=None, t=t0 - 5000))
    presses += [dict(skill=hit, job=None, mod=None, targets=None, t=t0 + o) for o in offs]
    sc = dict(lib=dict(kind="real", version=v, level=l), job=job, stats=G.rand_stats(rng, job, v, l), presses=presses,
              rb=dict(snap_dots=None, autos=False, trailing=False, fight_start=0, downtime=None, default_target="Default Target"))
    r = G.run_real(sc)
    got = [(round(i[0]), round(i[3][0].main_stat_mult, 6), i[3][0].main_stat_add) for i in sorted(r.inst, key=lambda i: i[0])]
    if job != "SCH":
        for i in sorted(r.inst, key=lambda i: i[0])[:2]:
            if "Chain Stratagem" not in i[3][1].status_effects:
                return f"{v}/{l} {job} {how} at {t0}: the enemy's debuff is missing from the hit at {i[0]}"
    m = DEATHS[how]
    m = 1 if m is None else m
    want = [1, m, m, m, 1]
    seen["hits around a weakness"] = seen.get("hits around a weakness", 0) + len(got)
    if [g[1] for g in got] != want:
        return f"{v}/{l} {job} {how} at {t0}: hits at {offs} ms from it see main stat x{[g[1] for g in got]}, expected {want}"
    if any(g[2] for g in got[1:]):
        return f"{v}/{l} {job} {how}: the potion taken before is still active afterwards"
    sim = call(DamageSimulator, r.stats, r.inst, 1)
    e = call(sim.get_expected_damage_per_damage_instance)
    if m != 1 and job not in HEALERS and job not in CASTERS and not e[1] < e[-1]:  # their autos use strength
        return f"{v}/{l} {job} {how}: a weakened hit deals {e[1]}, a healthy one {e[-1]}"
    return None


def no_time(case, seen):
    """a death between two GCDs does not move them"""
    rng = random.Random(case["seed"])
    v, l, job, how = case["v"], case["l"], case["job"], case["how"]
    lib = real_lib(v, l)
    g = plain_gcd(lib, job, rng)
    if g is None:
        return None
    st = G.rand_stats(rng, job, v, l)

    def times(names):
        sc = dict(lib=dict(kind="real", version=v, level=l), job=job, stats=st,
                  presses=[dict(skill=n, job=None, mod=None, targets=None, t=None) for n in names],
                  rb=dict(snap_dots=None, autos=False, trailing=False, fight_start=0, downtime=None, default_target="Default Target"))
        return [p[0] for p in G.run_real(sc, instances=False).presses]
    a, b = times([g, g]), times([g, how, g])
    seen["deaths between two GCDs"] = seen.get("deaths between two GCDs", 0) + 1
    if round(a[1] - a[0], 3) != round(b[2] - b[0], 3):
        return f"{v}/{l} {job} {g}, {how}, {g}: pressed at {b}, without the death at {a}"
    return None


def run(ctx):
    n = 0
    for i in range(ctx.n(700, 8000)):
        if ctx.stop() or n >= ctx.n(260, 3000):
            break
        rng = random.Random(f"{ctx.prop}/{ctx.seed}/{i}")
        case = dict(kind="death", seed=rng.randint(0, 10**9), how=rng.choice(list(DEATHS)), twice=rng.random() < 0.2, later=rng.random() < 0.25)
        seen = {}
        try:
            p = check(case, seen)
        except G.SKIP:
            ctx.count("skipped: unspecified")
            continue
        except RealCrash as e:
            p = f"crash: {e}"
        if p == "skip":
            continue
        n += 1
        ctx.count("rotations with a death")
        for k, v in seen.items():
            ctx.count(k, v)
        ctx.seen(case)
        if p:
            ctx.violation(p, case)
    i = 0
    from vp.env import JOBS, VERSIONS
    for v, l in VERSIONS:
        for job in JOBS:
            i += 1
            if not ctx.mine(i) or ctx.stop() or not real_lib(v, l).has_job_class(job):
                continue
            for how in DEATHS:
                case = dict(kind="weak", seed=f"{ctx.seed}{i}", v=v, l=l, job=job, how=how)
                seen = {}
                try:
                    p = weakness(case, seen) or no_time(case, seen)
                except RealCrash as e:
                    p = f"crash: {e}"
                for k, c in seen.items():
                    ctx.count(k, c)
                ctx.seen((v, l, job, how))
                if p:
                    ctx.violation(p, case)
    ctx.sample(dict(observed=dict(ctx.counts)))
    ctx.need("hits after a death", 3000)
    ctx.need("hits around a weakness", 1000)
    ctx.need("deaths between two GCDs", 200)


def replay(ctx, case):
    try:
        p = (weakness(case, {}) or no_time(case, {})) if case["kind"] == "weak" else check(case, {})
    except RealCrash as e:
        p = f"crash: {e}"
    if p and p != "skip":
        ctx.violation(p, case)
